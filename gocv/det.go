package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Deterministic functions outside of the repository: the result is an
// uninterpreted function of the contents of the arguments.

func isDet(name string) bool {
	switch {
	case strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "encoding/hex."), strings.HasPrefix(name, "math."):
		return true
	}
	switch name {
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "net.SplitHostPort":
		return true
	}
	return false
}

func (x *Exec) seqDT(el Sort) *DT {
	n := "Seq." + sanitize(el)
	if d, ok := x.c.dts[n]; ok {
		return d
	}
	return x.c.datatype(n, "mk-"+n, []DTField{{n + ".len", SInt}, {n + ".data", arr(SInt, el)}})
}

// seq is the contents of a slice as a value
func (x *Exec) seq(st *State, s *Term, el types.Type) *Term {
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return x.bytesOf(st, s)
	}
	c := x.c
	es := x.sortOf(el)
	d := x.seqDT(es)
	ln := c.App("s-len", s)
	n, srt := x.elemComp(el)
	a := c.Select(x.comp(st, n, srt), c.App("s-ref", s))
	return c.App(d.ctor, ln, x.shift(a, c.App("s-off", s), ln))
}

// memb says that a value is among the elements of a slice
func (x *Exec) memb(st *State, s *Term, el types.Type, v *Term) *Term {
	c := x.c
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	es := x.sortOf(el)
	f, g := "memb."+sanitize(es), "midx."+sanitize(es)
	if _, ok := c.funs[f]; !ok {
		as := arr(SInt, es)
		c.fun(f, SBool, as, SInt, es)
		c.fun(g, SInt, as, SInt, es)
		a, nn, xv, k, w, o := c.Var("a", as), c.Var("n", SInt), c.Var("x", es), c.Var("k", SInt), c.Var("w", es), c.Var("o", SInt)
		ax := func(note string, vs []*Term, body *Term, pat ...*Term) {
			c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: note, term: c.Forall(vs, body, pat)})
		}
		m := c.App(f, a, nn, xv)
		i := c.App(g, a, nn, xv)
		ax("definition of membership", []*Term{a, nn, xv}, c.Imp(m, c.And(c.Le(c.Int(0), i), c.Lt(i, nn), c.Eq(c.Select(a, i), xv))), m)
		ax("definition of membership", []*Term{a, nn, xv, k}, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, nn), c.Eq(c.Select(a, k), xv)), m), m, c.Select(a, k))
		sm := c.App(f, c.Store(a, k, w), nn, xv)
		ax("membership after appending", []*Term{a, k, w, nn, xv}, c.Imp(c.And(c.Le(c.Int(0), k), c.Eq(nn, c.Add(k, c.Int(1)))), c.Eq(sm, c.Or(c.App(f, a, k, xv), c.Eq(xv, w)))), sm)
		ss := x.shift(c.Store(a, k, w), o, nn)
		n1 := c.Sub(nn, c.Int(1))
		ax("shift of an array appended to", []*Term{a, k, w, o, nn}, c.Imp(c.And(c.Le(c.Int(1), nn), c.Eq(k, c.Add(o, n1))), c.Eq(ss, c.Store(x.shift(a, o, n1), n1, w))), ss)
	}
	var rec func(s *Term, d int) *Term
	rec = func(s *Term, d int) *Term {
		if s.op == "ite" && d < 6 {
			return c.Ite(s.args[0], rec(s.args[1], d+1), rec(s.args[2], d+1))
		}
		ln := c.App("s-len", s)
		return c.App(f, x.shift(c.Select(h, c.App("s-ref", s)), c.App("s-off", s), ln), ln, v)
	}
	return rec(s, 0)
}

func (x *Exec) detArg(st *State, v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if iv, ok := v.(*IfaceV); ok {
			return x.term(st, iv)
		}
	}
	tt := x.term(st, v)
	if s, ok := t.Underlying().(*types.Slice); ok && tt.sort == SSlice {
		return x.seq(st, tt, s.Elem())
	}
	return tt
}

func (x *Exec) detApp(name string, i int, ts []*Term, rt types.Type) *Term {
	c := x.c
	var ss []Sort
	for _, t := range ts {
		ss = append(ss, t.sort)
	}
	f := "det." + sanitize(name)
	if i > 0 {
		f += "." + string(rune('0'+i))
	}
	rs := ""
	if s, ok := rt.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			rs = SBS
		} else {
			rs = x.seqDT(x.sortOf(s.Elem())).name
		}
	} else {
		rs = x.sortOf(rt)
	}
	// overloads by sorts (spec and code may pass the same things only)
	if _, ok := c.funs[f]; !ok {
		c.fun(f, rs, ss...)
	}
	if len(ts) == 0 {
		return c.Sym(f+"!", rs)
	}
	return c.App(f, ts...)
}

// the parts of a format: literals, and verbs with their argument
type fmtPart struct {
	lit, verb string
}

// fmtParts splits a constant format; only verbs whose meaning is a function of
// strconv are taken
func fmtParts(f string) (ps []fmtPart, ok bool) {
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && (f[j] == '.' || '0' <= f[j] && f[j] <= '9') {
			j++
		}
		if j == len(f) {
			return nil, false
		}
		switch v := f[i+1 : j+1]; {
		case v == "%":
			lit += "%"
		case v == "s", v == "d", v == "v", len(v) == 3 && v[0] == '.' && v[1] != '.' && v[2] == 'f':
			if lit != "" {
				ps = append(ps, fmtPart{lit: lit})
				lit = ""
			}
			ps = append(ps, fmtPart{verb: v})
		default:
			return nil, false
		}
		i = j
	}
	if lit != "" {
		ps = append(ps, fmtPart{lit: lit})
	}
	return ps, true
}

// detTerm is detApp with the functions that fmt and strconv define by others
// written out: Itoa, and Sprintf with a constant format whose arguments are
// strings, integers and floats
func (x *Exec) detTerm(st *State, name string, i int, ts []*Term, rt types.Type) *Term {
	c := x.c
	formatInt := func(t *Term, unsigned bool) *Term {
		f := "strconv.FormatInt"
		if unsigned {
			f = "strconv.FormatUint"
		}
		return x.detApp(f, 0, []*Term{t, c.Int(10)}, types.Typ[types.String])
	}
	switch name {
	case "strconv.Itoa":
		return formatInt(ts[0], false)
	case "fmt.Sprintf":
		if len(ts) != 2 {
			break
		}
		f, ok := x.strs[ts[0]]
		d := c.dts[ts[1].sort]
		if !ok || d == nil {
			break
		}
		ps, ok := fmtParts(f)
		ln, data := c.App(d.fields[0].name, ts[1]), c.App(d.fields[1].name, ts[1])
		n := 0
		for _, p := range ps {
			if p.verb != "" {
				n++
			}
		}
		if !ok || ln.num == nil || ln.num.Int64() != int64(n) {
			break
		}
		elem := func(k int) *Term {
			a, o := data, 0
			for strings.HasPrefix(a.op, "shift.") && len(a.args) == 3 {
				if a.args[1].num == nil || a.args[2].num == nil {
					return nil
				}
				o += int(a.args[1].num.Int64())
				a = a.args[0]
			}
			return c.Select(a, c.Int(int64(k+o)))
		}
		out := x.strLit("")
		k := 0
		for _, p := range ps {
			if p.verb == "" {
				out = x.strCat(st, out, x.strLit(p.lit))
				continue
			}
			e := elem(k)
			k++
			if e == nil || e.op != "mk-iface" || e.args[0].num == nil {
				return x.detApp(name, i, ts, rt)
			}
			t, ok := x.tagTypes[int(e.args[0].num.Int64())]
			if !ok {
				return x.detApp(name, i, ts, rt)
			}
			b, ok := types.Unalias(t).(*types.Basic)
			if !ok {
				return x.detApp(name, i, ts, rt)
			}
			v := x.unbox(e.args[1], t)
			var s *Term
			switch {
			case b.Info()&types.IsString != 0 && (p.verb == "s" || p.verb == "v"):
				s = v
			case b.Info()&types.IsInteger != 0 && (p.verb == "d" || p.verb == "v"):
				s = formatInt(v, b.Info()&types.IsUnsigned != 0)
			case b.Kind() == types.Float64 && p.verb[0] == '.':
				s = x.detApp("strconv.FormatFloat", 0, []*Term{v, c.Int('f'), c.Int(int64(p.verb[1] - '0')), c.Int(64)}, types.Typ[types.String])
			default:
				return x.detApp(name, i, ts, rt)
			}
			out = x.strCat(st, out, s)
		}
		return out
	}
	return x.detApp(name, i, ts, rt)
}

func (x *Exec) detCall(st *State, name string, args []Val, sig *types.Signature) []Val {
	x.trusted["external "+name+" is a function of the contents of its arguments, without effects"] = true
	c := x.c
	var ts []*Term
	for i, a := range args {
		j := i
		var pt types.Type
		if sig.Recv() != nil {
			j--
		}
		if j < 0 {
			pt = sig.Recv().Type()
		} else {
			pt = sig.Params().At(j).Type()
		}
		ts = append(ts, x.detArg(st, a, pt))
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := x.detTerm(st, name, i, ts, rt)
		if s, ok := rt.Underlying().(*types.Slice); ok {
			d := c.dts[t.sort]
			ln, data := c.App(d.fields[0].name, t), c.App(d.fields[1].name, t)
			x.lenFacts(st, ln)
			res = append(res, x.sliceFrom(st, s.Elem(), data, ln))
			continue
		}
		x.facts(st, t, rt)
		res = append(res, x.lift(t, rt))
	}
	return res
}

// consSeq is the sequence with v in front
func (x *Exec) consSeq(vs []*Term, s *Term) *Term {
	c := x.c
	d := c.dts[s.sort]
	ln, data := c.App(d.fields[0].name, s), c.App(d.fields[1].name, s)
	_, es := arrElems(data.sort)
	k := c.Int(int64(len(vs)))
	a := c.ConstArr(data.sort, x.defOf(es))
	for i, v := range vs {
		a = c.Store(a, c.Int(int64(i)), v)
	}
	if ln.num != nil && ln.num.Sign() == 0 {
		return c.App(d.ctor, k, a)
	}
	return c.App(d.ctor, c.Add(k, ln), x.splice(a, k, data, c.Int(0), ln))
}

func (x *Exec) emptySeq(es Sort) *Term {
	d := x.seqDT(es)
	return x.c.App(d.ctor, x.c.Int(0), x.c.ConstArr(arr(SInt, es), x.defOf(es)))
}

func init() {
	// the standard logger: what is written is recorded
	models["(*log.Logger).Output"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["(*log.Logger).Output writes one record with the given text"] = true
		c := x.c
		r := x.term(st, args[0])
		cnt := x.comp(st, "GH:written", arr(SInt, SInt))
		n := c.Select(cnt, r)
		h := x.comp(st, "GH:record", arr(SInt, arr(SInt, SStr)))
		x.setComp(st, "GH:record", r, c.Store(h, r, c.Store(c.Select(h, r), n, x.term(st, args[2]))))
		// the frame the record is attributed to: 1 is the caller of the function
		// under contract
		hc := x.comp(st, "GH:caller", arr(SInt, arr(SInt, SInt)))
		depth := c.Sub(x.term(st, args[1]), c.Int(int64(len(st.frames))))
		x.setComp(st, "GH:caller", r, c.Store(hc, r, c.Store(c.Select(hc, r), n, depth)))
		x.setComp(st, "GH:written", r, c.Store(cnt, r, c.Add(n, c.Int(1))))
		return []Val{x.havocVal(st, "outerr", types.Universe.Lookup("error").Type())}
	})
	models["log.New"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		x.trusted["log.New makes a logger with the given output, prefix and flags"] = true
		c := x.c
		r := x.alloc(st)
		for i, g := range []struct {
			n string
			s Sort
		}{{"GH:logout", SIface}, {"GH:logprefix", SStr}, {"GH:logflags", SInt}} {
			h := x.comp(st, g.n, arr(SInt, g.s))
			x.setComp(st, g.n, r, c.Store(h, r, x.term(st, args[i])))
		}
		return []Val{x.lift(r, cc.Signature().Results().At(0).Type())}
	})
	// command-line flags: the variable of each flag
	for _, n := range []string{"StringVar", "BoolVar", "UintVar", "IntVar", "DurationVar", "Var", "Float64Var", "Uint64Var", "Int64Var"} {
		models["flag."+n] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
			x.trusted["flag.*Var sets the variable when the flags are parsed"] = true
			c := x.c
			h := x.comp(st, "GH:flagvar", arr(SInt, arr(SStr, SInt)))
			z := c.Int(0)
			var p *Term
			if iv, ok := args[0].(*IfaceV); ok {
				p = x.term(st, iv.val)
			} else {
				p = x.term(st, args[0])
			}
			x.setComp(st, "GH:flagvar", z, c.Store(h, z, c.Store(c.Select(h, z), x.term(st, args[1]), p)))
			return nil
		})
	}
}
