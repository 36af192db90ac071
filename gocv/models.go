package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model is the built-in meaning of a function outside of the repository.
type model func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool

var models = map[string]model{}

func simple(f func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val) model {
	return func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		k(st, f(x, st, args, cc))
		return true
	}
}

var goModels = map[string]string{
	"data.Feeds.Iterate": "data.verifIterateFeeds",
	"data.Heads.Iterate": "data.verifIterateHeads",
	"data.Roots.Ascend":  "data.verifAscend",
	"data.Roots.Descend": "data.verifDescend",
}

func init() {

	noop := func(note string) model {
		return simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
			if note != "" {
				x.trusted[note] = true
			}
			return nil
		})
	}
	mtx := "wait groups and sleeping are ignored"
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.Gosched", "time.Sleep"} {
		models[n] = noop(mtx)
	}
	for _, ty := range []string{"Mutex", "RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			op := op
			models["(*sync."+ty+")."+op] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
				x.lockOp(st, op, args[0])
				return nil
			})
		}
	}
	models["sort.Slice"] = sortSlice
	newErr := simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val { return []Val{x.newError(st)} })
	models["errors.New"] = newErr
	models["fmt.Errorf"] = newErr
	models["error.Error"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.c.fun("error-text", SStr, SIface)
		t := x.c.App("error-text", x.term(st, args[0]))
		x.facts(st, t, types.Typ[types.String])
		return []Val{t}
	})
	// sync.Once
	models["(*sync.Once).Do"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		p := args[0].(*PtrV)
		done := x.c.Neq(x.term(st, x.load(st, p)), x.c.Int(0))
		yes, no := x.branch(st, done)
		if yes && no {
			o := st.clone()
			x.paths++
			x.assume(o, done)
			k(o, nil)
			x.work = append(x.work, o)
			x.assume(st, x.c.Not(done))
		} else if yes {
			k(st, nil)
			return true
		}
		x.store(st, p, x.c.Int(1))
		return x.callFn(st, args[1].(*ClosureV), nil, cc, nil, func(s *State, r []Val) { k(s, nil) })
	}
	models["skyobject/registry.Splitter.Go"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		x.trusted["a task given to Splitter.Go is run at once (tasks share nothing but the splitter, which may run them in any order)"] = true
		return x.callFn(st, args[1].(*ClosureV), nil, cc, nil, func(s *State, r []Val) { k(s, nil) })
	}
	// a transaction of the index database: refused, or f is called and what it
	// did is undone if it fails or the commit does
	models["data.IdxDB.Tx"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		x.trusted["data.IdxDB.Tx either fails without calling the function, or calls it once and undoes its changes if it or the commit fails (C04); an error of the transaction itself is none of those of package data"] = true
		return x.transaction(st, args[1], "ix", nil, func(s *State) Val {
			return x.newError(s)
		}, k)
	}
	// transactions of a bolt database: there is one, its ghosts are bk..., and
	// bkfail tells that it failed by itself
	for name, rw := range map[string]bool{"View": false, "Update": true} {
		rw := rw
		models["(*bolt.DB)."+name] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
			x.trusted["a bolt transaction either fails without calling the function, or calls it once and undoes its changes if it or the commit fails; functions given to OnCommit are called after a commit, and only then; what was committed is there when the file is opened again"] = true
			set := func(s *State, n string, v *Term) {
				g := "GH:" + n
				x.setComp(s, g, nil, x.c.Store(x.comp(s, g, arr(SInt, x.w.ghosts[n].Sort)), x.c.Int(0), v))
			}
			set(st, "bkrw", x.c.Bool(rw))
			return x.transaction(st, args[1], "bk", func(s *State) { set(s, "bkrw", x.c.Bool(false)) }, func(s *State) Val {
				set(s, "bkfail", x.c.Bool(true))
				return x.newError(s)
			}, k)
		}
	}
	models["(*bolt.Tx).OnCommit"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		if len(st.loops) > 0 {
			panic(unsup("OnCommit in a loop"))
		}
		st.hooks = append(st.hooks[:len(st.hooks):len(st.hooks)], args[1])
		k(st, nil)
		return true
	}
	// methods with a model in Go (contracts/go)
	for name, m := range goModels {
		name, m := name, m
		models[name] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
			f := x.w.fns[m]
			if f == nil {
				panic(unsup("%s is not there", m))
			}
			x.trusted[name+" does what "+m+" (contracts/go) does, on what there is as it starts (C04)"] = true
			return x.callFn(st, &ClosureV{fn: f, sig: f.Signature}, args, cc, nil, k)
		}
	}
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		ty := ty
		gt := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}[ty]
		models["sync/atomic.Load"+ty] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
			return []Val{x.load(st, args[0].(*PtrV))}
		})
		models["sync/atomic.Store"+ty] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
			x.store(st, args[0].(*PtrV), args[1])
			return nil
		})
		models["sync/atomic.Add"+ty] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
			p := args[0].(*PtrV)
			v := x.wrap(st, x.c.Add(x.term(st, x.load(st, p)), x.term(st, args[1])), gt)
			x.store(st, p, v)
			return []Val{v}
		})
	}
	// encoding/binary
	for _, o := range []string{"littleEndian", "bigEndian"} {
		for _, n := range []int{2, 4, 8} {
			n, big := n, o == "bigEndian"
			ty := map[int]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n]
			get := simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
				return []Val{x.getUint(st, x.term(st, args[len(args)-1]), n, big, ty)}
			})
			put := simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
				x.putUint(st, x.term(st, args[len(args)-2]), x.term(st, args[len(args)-1]), n, big)
				return nil
			})
			models[fmt.Sprintf("(encoding/binary.%s).Uint%d", o, n*8)] = get
			models[fmt.Sprintf("(encoding/binary.%s).PutUint%d", o, n*8)] = put
		}
	}
	// time
	models["time.Now"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["time.Now returns an arbitrary later-or-equal instant after 1970"] = true
		c := x.c
		t := c.Fresh("now", SInt)
		x.timeFuns()
		n := c.App("time-nano", t)
		h := x.comp(st, "GH:clock", arr(SInt, SInt))
		last := c.Select(h, c.Int(0))
		x.assume(st, c.And(c.Lt(c.Int(0), n), c.Le(n, c.Big(maxInt64)), c.Le(last, n)))
		x.setComp(st, "GH:clock", c.Int(0), c.Store(h, c.Int(0), n))
		return []Val{t}
	})
	models["(time.Time).UnixNano"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.timeFuns()
		r := x.c.App("time-nano", x.term(st, args[0]))
		x.facts(st, r, types.Typ[types.Int64])
		return []Val{r}
	})
	models["time.Unix"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		c := x.c
		x.timeFuns()
		t := c.Fresh("unix", SInt)
		if s := x.term(st, args[0]); s.num != nil && s.num.Sign() == 0 {
			x.assume(st, c.Eq(c.App("time-nano", t), x.term(st, args[1])))
		}
		return []Val{t}
	})
	models["(time.Time).Sub"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		c := x.c
		x.timeFuns()
		c.fun("time-sub", SInt, SInt, SInt)
		a, b := x.term(st, args[0]), x.term(st, args[1])
		r := c.App("time-sub", a, b)
		x.facts(st, r, types.Typ[types.Int64])
		return []Val{r}
	})
	// bytes
	models["bytes.Equal"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		return []Val{x.c.Eq(x.bytesOf(st, x.term(st, args[0])), x.bytesOf(st, x.term(st, args[1])))}
	})
	models["bytes.Compare"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		c := x.c
		if _, ok := c.funs["bytes-cmp"]; !ok {
			c.fun("bytes-cmp", SInt, SBS, SBS)
			a, b := c.Var("a", SBS), c.Var("b", SBS)
			ab := c.App("bytes-cmp", a, b)
			c.axioms = append(c.axioms, &Axiom{trig: []string{"bytes-cmp"}, note: "bytes.Compare", term: c.Forall([]*Term{a, b},
				c.And(c.Le(c.Int(-1), ab), c.Le(ab, c.Int(1)), c.Eq(c.Eq(ab, c.Int(0)), c.Eq(a, b)), c.Eq(c.App("bytes-cmp", b, a), c.Sub(c.Int(0), ab))), []*Term{ab})})
		}
		return []Val{c.App("bytes-cmp", x.bytesOf(st, x.term(st, args[0])), x.bytesOf(st, x.term(st, args[1])))}
	})
	// cipher
	models["cipher.SumSHA256"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["cipher.SumSHA256 is a function of the bytes"] = true
		return []Val{x.sha(x.bytesOf(st, x.term(st, args[0])))}
	})
	models["(cipher.SHA256).Hex"] = hexModel(32)
	models["(cipher.PubKey).Hex"] = hexModel(33)
	models["cipher.SignHash"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["cipher.SignHash produces a valid non-blank signature of the hash, or an error"] = true
		return nil
	})
	delete(models, "cipher.SignHash")
}

// hexModel is the hexadecimal form of an array of n bytes
func hexModel(n int64) model {
	return simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["the hexadecimal form of an array is a function of it, with two digits a byte"] = true
		t := x.hex(x.term(st, args[0]), n)
		x.assume(st, x.c.Eq(x.strLen(t), x.c.Int(2*n)))
		return []Val{t}
	})
}

func (x *Exec) hex(t *Term, n int64) *Term {
	f := fmt.Sprintf("hex%d", n)
	x.c.fun(f, SStr, arr(SInt, SInt))
	return x.c.App(f, t)
}

func (x *Exec) sha(bs *Term) *Term {
	c := x.c
	c.fun("sha256", arr(SInt, SInt), SBS)
	t := c.App("sha256", bs)
	x.canon[t] = 32
	return t
}

func (x *Exec) timeFuns() {
	x.c.fun("time-nano", SInt, SInt)
}

// newError is a fresh non-nil error
func (x *Exec) newError(st *State) Val {
	r := x.alloc(st)
	return x.c.App("mk-iface", x.typeTag(errStringType), r)
}

// getUint reads an unsigned integer of n bytes
func (x *Exec) getUint(st *State, s *Term, n int, big bool, ty types.Type) *Term {
	c := x.c
	x.safety(st, "index in range", c.Le(c.Int(int64(n)), c.App("s-len", s)))
	nm, srt := x.elemComp(types.Typ[types.Uint8])
	a := c.Select(x.comp(st, nm, srt), c.App("s-ref", s))
	// a value that was just put there
	var bs []*Term
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		b := c.Select(a, c.Add(c.App("s-off", s), c.Int(int64(j))))
		bs = append(bs, b) // least significant first
	}
	if f := fmt.Sprintf("byte%d.0", n); bs[0].op == f {
		v := bs[0].args[0]
		same := true
		for i, b := range bs {
			same = same && b.op == fmt.Sprintf("byte%d.%d", n, i) && b.args[0] == v
		}
		if same {
			return v
		}
	}
	r := c.Int(0)
	for i := n - 1; i >= 0; i-- {
		x.facts(st, bs[i], types.Typ[types.Uint8])
		r = c.Add(c.Mul(r, c.Int(256)), bs[i])
	}
	v := c.Fresh("uint", SInt)
	x.assume(st, c.Eq(v, r))
	x.facts(st, v, ty)
	return v
}

// putUint writes an unsigned integer
func (x *Exec) putUint(st *State, s, v *Term, n int, big bool) {
	c := x.c
	x.safety(st, "index in range", c.Le(c.Int(int64(n)), c.App("s-len", s)))
	nm, srt := x.elemComp(types.Typ[types.Uint8])
	h := x.comp(st, nm, srt)
	ref, off := c.App("s-ref", s), c.App("s-off", s)
	a := c.Select(h, ref)
	can, isCan := x.canon[a]
	sum := c.Int(0)
	var bs []*Term
	for i := 0; i < n; i++ {
		f := c.fun(fmt.Sprintf("byte%d.%d", n, i), SInt, SInt)
		bs = append(bs, c.App(f, v))
	}
	for i := n - 1; i >= 0; i-- {
		x.assume(st, c.And(c.Le(c.Int(0), bs[i]), c.Le(bs[i], c.Int(255))))
		sum = c.Add(c.Mul(sum, c.Int(256)), bs[i])
	}
	x.assume(st, c.Eq(sum, v))
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		a = c.Store(a, c.Add(off, c.Int(int64(j))), bs[i])
	}
	if isCan {
		x.canon[a] = can
	}
	x.setComp(st, nm, ref, c.Store(h, ref, a))
}

var _ = strings.HasPrefix

// transaction calls f and undoes what it did to the ghosts with the prefix if
// it, or the commit, fails; done is called before hooks of a commit
func (x *Exec) transaction(st *State, fn Val, prefix string, done func(*State), failure func(*State) Val, k func(*State, []Val)) bool {
	f, ok := fn.(*ClosureV)
	if !ok || f.fn == nil {
		panic(unsup("transaction by an unknown function"))
	}
	if done == nil {
		done = func(*State) {}
	}
	o := st.clone()
	x.paths++
	done(o)
	k(o, []Val{failure(o)})
	x.work = append(x.work, o)
	saved := map[string]*Term{}
	for n := range x.w.ghosts {
		if strings.HasPrefix(n, prefix) && n != "bkfail" {
			saved["GH:"+n] = x.comp(st, "GH:"+n, arr(SInt, x.w.ghosts[n].Sort))
		}
	}
	undo := func(s *State) {
		for n, t := range saved {
			x.setComp(s, n, nil, t)
		}
		done(s)
	}
	outer := st.hooks
	st.hooks = nil
	arg := x.havocVal(st, "tx", f.fn.Signature.Params().At(0).Type())
	switch a := arg.(type) {
	case *PtrV:
		x.assume(st, x.c.Neq(x.term(st, a), x.c.Int(0)))
	default:
		x.assume(st, x.c.Neq(x.c.App("i-tag", x.term(st, arg)), x.c.Int(0)))
	}
	return x.callFn(st, f, []Val{arg}, nil, nil, func(s *State, r []Val) {
		hooks := s.hooks
		s.hooks = outer
		e := x.term(s, r[0])
		bad := x.c.Neq(x.c.App("i-tag", e), x.c.Int(0))
		yes, no := x.branch(s, bad)
		if no {
			ok := s
			if yes {
				ok = s.clone()
				x.paths++
			}
			x.assume(ok, x.c.Not(bad))
			fl := ok.clone()
			x.paths++
			undo(fl)
			k(fl, []Val{failure(fl)})
			x.work = append(x.work, fl)
			done(ok)
			var commit func(s *State, hs []Val)
			commit = func(s *State, hs []Val) {
				if len(hs) == 0 {
					k(s, r)
					return
				}
				x.callFn(s, hs[0].(*ClosureV), nil, nil, nil, func(s *State, _ []Val) { commit(s, hs[1:]) })
			}
			commit(ok, hooks)
			if !yes {
				return
			}
			x.work = append(x.work, ok)
		}
		x.assume(s, bad)
		undo(s)
		k(s, r)
	})
}

// sortSlice permutes the elements; those before others are not greater by the
// function given, as far as it is evaluated here
func sortSlice(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
	c := x.c
	iv, ok := args[0].(*IfaceV)
	less, ok2 := args[1].(*ClosureV)
	if !ok || !ok2 || less.fn == nil {
		panic(unsup("sort.Slice of unknown values"))
	}
	x.trusted["sort.Slice permutes the elements and orders them by the function given, a strict weak order"] = true
	s := x.term(st, iv.val)
	el := iv.typ.Underlying().(*types.Slice).Elem()
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	ref, off := c.App("s-ref", s), c.App("s-off", s)
	end := c.Add(off, c.App("s-len", s))
	_, as := arrElems(srt)
	a, b := c.Select(h, ref), c.Fresh("sorted", as)
	p, q := c.Fresh("sort-from", arr(SInt, SInt)), c.Fresh("sort-to", arr(SInt, SInt))
	j := c.Var("j", SInt)
	in := func(t *Term) *Term { return c.And(c.Le(off, t), c.Lt(t, end)) }
	pj, qj := c.Select(p, j), c.Select(q, j)
	x.assume(st, c.Forall([]*Term{j}, c.Ite(in(j), c.And(in(pj), c.Eq(c.Select(q, pj), j), c.Eq(c.Select(b, j), c.Select(a, pj))),
		c.Eq(c.Select(b, j), c.Select(a, j))), []*Term{c.Select(b, j)}))
	x.assume(st, c.Forall([]*Term{j}, c.Imp(in(j), c.And(in(qj), c.Eq(c.Select(p, qj), j), c.Eq(c.Select(b, qj), c.Select(a, j)))), []*Term{c.Select(a, j)}))
	x.setComp(st, n, ref, c.Store(h, ref, b))
	// the order
	i1, i2 := c.Fresh("sort-i", SInt), c.Fresh("sort-j", SInt)
	t := st.clone()
	t.frames, t.loops, t.log = nil, nil, nil
	t.frames = append(t.frames, st.frames[len(st.frames)-1])
	x.assume(t, c.And(in(i1), in(i2)))
	base := len(t.pc)
	t.frames = nil
	work := x.work
	x.work = nil
	type end_ struct {
		pc  []*Term
		res *Term
	}
	var ends []end_
	x.push(t, less.fn, less.bindings, []Val{c.Sub(i1, off), c.Sub(i2, off)}, nil, func(s *State, r []Val) {
		ends = append(ends, end_{append([]*Term(nil), s.pc[base:]...), x.term(s, r[0])})
	})
	for w := t; w != nil; {
		x.run(w)
		if w = nil; len(x.work) > 0 {
			w = x.work[len(x.work)-1]
			x.work = x.work[:len(x.work)-1]
		}
	}
	x.work = work
	v1, v2 := c.Var("i", SInt), c.Var("j", SInt)
	for _, e := range ends {
		g := c.Not(e.res)
		if len(ends) > 1 {
			g = c.Imp(c.And(e.pc...), g)
		}
		// not less(later, earlier)
		g = c.Subst(g, map[*Term]*Term{i1: v2, i2: v1})
		x.assume(st, c.Forall([]*Term{v1, v2}, c.Imp(c.And(in(v1), in(v2), c.Lt(v1, v2)), g), []*Term{c.Select(b, v1), c.Select(b, v2)}))
	}
	k(st, nil)
	return true
}
