package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// InvokeV is an interface method call on a value of unknown dynamic type
type InvokeV struct {
	recv  Val
	typ   types.Type // interface type
	meth  *types.Func
	token string
}

func (x *Exec) callee(st *State, fr *Frame, cc *ssa.CallCommon) (fn Val, args []Val) {
	for _, a := range cc.Args {
		args = append(args, x.get(st, fr, a))
	}
	if cc.IsInvoke() {
		v := x.get(st, fr, cc.Value)
		if t, ok := v.(*Term); ok {
			v = x.lift(t, cc.Value.Type())
		}
		if iv, ok := v.(*IfaceV); ok {
			if m := x.w.method(iv.typ, cc.Method); m != nil {
				return &ClosureV{fn: m}, append([]Val{iv.val}, args...)
			}
		}
		t := x.term(st, v)
		return &InvokeV{recv: t, typ: cc.Value.Type(), meth: cc.Method}, args
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return v, args
	}
	f := x.get(st, fr, cc.Value)
	if t, ok := f.(*Term); ok {
		f = x.lift(t, cc.Value.Type())
	}
	return f, args
}

func ifaceMethodName(t types.Type, m *types.Func) string {
	return tname(types.Unalias(t)) + "." + m.Name()
}

// doCall performs a call; k receives the results in the state of the caller.
// It returns whether the execution of st continues.
func (x *Exec) doCall(st *State, cc *ssa.CallCommon, fn Val, args []Val, in ssa.Instruction, k func(*State, []Val)) bool {
	switch f := fn.(type) {
	case *ssa.Builtin:
		k(st, x.builtin(st, f, cc, args))
		return true
	case *InvokeV:
		t := f.recv.(*Term)
		x.safety(st, "nil interface method call", x.c.Neq(x.c.App("i-tag", t), x.c.Int(0)))
		name := ifaceMethodName(f.typ, f.meth)
		if md, ok := models[name]; ok {
			x.used["model "+name] = true
			return md(x, st, append([]Val{t}, args...), cc, k)
		}
		if ct := x.w.contractFor(x.ct, name); ct != nil {
			return x.applyContract(st, ct, append([]Val{t}, args...), cc.Signature(), k)
		}
		return x.unknownCall(st, name, args, cc.Signature(), k)
	case *ClosureV:
		if f.unknown != nil {
			// a function type can have a contract: iface T.call(f, ...)
			if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
				if ct := x.w.contractFor(x.ct, tname(n)+".call"); ct != nil {
					x.safety(st, "call of a nil function", x.c.Neq(f.unknown, x.c.Int(0)))
					return x.applyContract(st, ct, append([]Val{f}, args...), cc.Signature(), k)
				}
			}
			if h := x.callbackModel(); h != nil {
				return h(x, st, f, args, cc, k)
			}
			return x.unknownCall(st, "function value", args, cc.Signature(), k)
		}
		return x.callFn(st, f, args, cc, in, k)
	}
	panic(unsup("call of %T", fn))
}

var shortPath = strings.NewReplacer(repoPrefix+"/", "", "github.com/skycoin/skycoin/src/", "", "github.com/boltdb/", "")

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return shortPath.Replace(f.String())
}

func (x *Exec) callFn(st *State, cl *ClosureV, args []Val, cc *ssa.CallCommon, in ssa.Instruction, k func(*State, []Val)) bool {
	f := cl.fn
	name := fnName(f)
	if md, ok := models[name]; ok {
		x.used["model "+name] = true
		return md(x, st, args, cc, k)
	}
	if ct := x.w.contractFor(x.ct, name); ct != nil && (ct.Opaque || ct.Trusted) {
		return x.applyContract(st, ct, args, f.Signature, k)
	}
	if len(f.Blocks) > 0 && (f.Pkg == nil || inRepo(f.Pkg.Pkg) || f.Synthetic != "") {
		n := 0
		for _, fr := range st.frames {
			if fr.fn == f {
				n++
			}
		}
		if n > x.ct.Unroll {
			if x.ct.Unroll > 0 {
				x.trusted[fmt.Sprintf("recursion of %s explored to depth %d only", name, x.ct.Unroll)] = true
			}
			panic(unsup("recursive call of %s without a contract", name))
		}
		if len(st.frames) > 40 {
			panic(unsup("call depth"))
		}
		x.inlined[name] = true
		x.push(st, f, cl.bindings, args, in, k)
		return true
	}
	if isDet(name) {
		k(st, x.detCall(st, name, args, f.Signature))
		return true
	}
	return x.unknownCall(st, name, args, f.Signature, k)
}

func (x *Exec) push(st *State, f *ssa.Function, bindings, args []Val, in ssa.Instruction, k func(*State, []Val)) {
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, block: f.Blocks[0], onRet: k, call: in}
	if len(args) != len(f.Params) {
		panic(unsup("argument count of %s: %d for %d", f, len(args), len(f.Params)))
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, b := range f.FreeVars {
		fr.env[b] = bindings[i]
	}
	st.frames = append(st.frames, fr)
}

// packages whose functions have no effect on the verified state
var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "path/filepath": true, "encoding/hex": true, "unicode": true, "math": true, "net": true, "time": true, "bytes": true, "sort": false}

func (x *Exec) unknownCall(st *State, name string, args []Val, sig *types.Signature, k func(*State, []Val)) bool {
	ok := x.w.isPure(x.ct, name)
	if !ok {
		panic(unsup("call of %s, which has no contract", name))
	}
	x.trusted["external "+name+": arbitrary result, no effect on the verified state"] = true
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.havocVal(st, "res", sig.Results().At(i).Type()))
	}
	k(st, res)
	return true
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) []Val {
	c := x.c
	T := func(i int) *Term { return x.term(st, args[i]) }
	typ := func(i int) types.Type { return cc.Args[i].Type() }
	switch b.Name() {
	case "len":
		switch u := typ(0).Underlying().(type) {
		case *types.Slice:
			return []Val{c.App("s-len", T(0))}
		case *types.Map:
			_, _, ln := x.mapView(st, T(0), u)
			x.lenFacts(st, ln)
			x.assume(st, c.Imp(c.Eq(T(0), c.Int(0)), c.Eq(ln, c.Int(0))))
			return []Val{ln}
		case *types.Basic:
			l := x.strLen(T(0))
			x.assume(st, c.Le(c.Int(0), l))
			x.assume(st, c.Le(l, c.Big(maxInt64)))
			return []Val{l}
		case *types.Array:
			return []Val{c.Int(u.Len())}
		case *types.Pointer:
			return []Val{c.Int(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			l := c.Fresh("chanlen", SInt)
			x.lenFacts(st, l)
			return []Val{l}
		}
	case "cap":
		switch u := typ(0).Underlying().(type) {
		case *types.Slice:
			return []Val{c.App("s-cap", T(0))}
		case *types.Array:
			return []Val{c.Int(u.Len())}
		}
	case "append":
		return []Val{x.appendSlice(st, T(0), typ(0), T(1), typ(1))}
	case "copy":
		return []Val{x.copySlice(st, T(0), T(1), typ(0), typ(1))}
	case "delete":
		m := T(0)
		x.mapDeleteNil(st, m, typ(0).Underlying().(*types.Map), T(1))
		return nil
	case "print", "println":
		return nil
	case "close":
		x.trusted["closing a channel has no effect on the verified state (closing twice is not excluded)"] = true
		return nil
	case "min", "max":
		r := T(0)
		for i := 1; i < len(args); i++ {
			if b.Name() == "min" {
				r = c.Ite(c.Le(T(i), r), T(i), r)
			} else {
				r = c.Ite(c.Le(r, T(i)), T(i), r)
			}
		}
		return []Val{r}
	case "ssa:wrapnilchk":
		p := x.asPtr(args[0], typ(0))
		x.nilCheck(st, p)
		return []Val{p}
	case "recover":
		x.trusted["recover returns nil (no panic is in flight)"] = true
		return []Val{x.nilIface()}
	}
	panic(unsup("builtin %s", b.Name()))
}

func (x *Exec) mapDeleteNil(st *State, m *Term, mt *types.Map, k *Term) {
	if m.num != nil && m.num.Sign() == 0 {
		return
	}
	x.mapDelete(st, m, mt, k)
}

// appendSlice models append exactly, aliasing included
func (x *Exec) appendSlice(st *State, s *Term, stp types.Type, t *Term, ttp types.Type) *Term {
	c := x.c
	el := stp.Underlying().(*types.Slice).Elem()
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	var src, soff, k *Term
	if t.sort == SStr {
		bs := x.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(*Term)
		t = bs
		h = x.comp(st, n, srt)
	}
	k = c.App("s-len", t)
	soff = c.App("s-off", t)
	src = c.Select(h, c.App("s-ref", t))
	ref, off, ln, cp := c.App("s-ref", s), c.App("s-off", s), c.App("s-len", s), c.App("s-cap", s)
	nl := c.Add(ln, k)
	x.trusted["slice lengths stay below 2^63 (append never overflows)"] = true
	x.assume(st, c.Le(nl, c.Big(maxInt64)))
	enough := c.Le(nl, cp)
	inplace, moved := true, true
	if c.isFalse(enough) || x.sol.entails(x, st, c.Not(enough)) {
		inplace = false
	} else if c.isTrue(enough) || x.sol.entails(x, st, enough) {
		moved = false
	}
	if k.num != nil && k.num.Sign() == 0 {
		return s
	}
	switch {
	case inplace && !moved:
		a := c.Select(h, ref)
		x.setComp(st, n, ref, c.Store(h, ref, x.splice(a, c.Add(off, ln), src, soff, k)))
		return c.App("mk-slice", ref, off, nl, cp)
	case moved && !inplace:
		r := x.alloc(st)
		ncp := c.Fresh("cap", SInt)
		x.assume(st, c.And(c.Le(nl, ncp), c.Le(ncp, c.Big(maxInt64))))
		a := x.shift(c.Select(h, ref), off, ln)
		x.setComp(st, n, r, c.Store(h, r, x.splice(a, ln, src, soff, k)))
		res := c.App("mk-slice", r, c.Int(0), nl, ncp)
		// appending nothing to nil gives nil
		if k.num == nil {
			return c.Ite(c.Eq(k, c.Int(0)), s, res)
		}
		return res
	}
	r := x.alloc(st)
	ncp := c.Fresh("cap", SInt)
	x.assume(st, c.And(c.Le(nl, ncp), c.Le(ncp, c.Big(maxInt64))))
	a := c.Select(h, ref)
	h1 := c.Store(h, ref, c.Ite(enough, x.splice(a, c.Add(off, ln), src, soff, k), a))
	fresh := x.splice(x.shift(a, off, ln), ln, src, soff, k)
	x.setComp(st, n, ref, h1)
	x.setComp(st, n, r, c.Store(h1, r, fresh))
	return c.Ite(enough, c.App("mk-slice", ref, off, nl, cp), c.App("mk-slice", r, c.Int(0), nl, ncp))
}

func (x *Exec) copySlice(st *State, d, s *Term, dt, stp types.Type) *Term {
	c := x.c
	if s.sort == SStr {
		s = x.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(*Term)
	}
	el := dt.Underlying().(*types.Slice).Elem()
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	dl, sl := c.App("s-len", d), c.App("s-len", s)
	k := c.Ite(c.Le(dl, sl), dl, sl)
	if x.sol.entails(x, st, c.Le(dl, sl)) {
		k = dl
	} else if x.sol.entails(x, st, c.Le(sl, dl)) {
		k = sl
	}
	dref := c.App("s-ref", d)
	da := c.Select(h, dref)
	sa := c.Select(h, c.App("s-ref", s))
	r := x.splice(da, c.App("s-off", d), sa, c.App("s-off", s), k)
	// a whole canonical array copied over another
	if n1, ok := x.canon[sa]; ok && k.num != nil && k.num.Int64() == n1 {
		if n2, ok := x.canon[da]; ok && n2 == n1 && isZero(c.App("s-off", d)) && isZero(c.App("s-off", s)) {
			r = sa
		}
	}
	if n2, ok := x.canon[da]; ok && k.num != nil && k.num.Int64() == n2 && isZero(c.App("s-off", d)) {
		// the destination is overwritten entirely
		r = x.shift(sa, c.App("s-off", s), k)
		x.canon[r] = n2
	} else if ok {
		x.canon[r] = n2
	}
	x.setComp(st, n, dref, c.Store(h, dref, r))
	return k
}

func isZero(t *Term) bool { return t.num != nil && t.num.Sign() == 0 }

//
// contracts at calls
//

func (x *Exec) applyContract(st *State, ct *Contract, args []Val, sig *types.Signature, k func(*State, []Val)) bool {
	x.used["contract "+ct.Name] = true
	if ct.Trusted {
		x.trusted["assumed contract: "+ct.Name] = true
	}
	env := map[string]SVal{}
	i := 0
	if sig.Recv() != nil || ct.IsMethod {
		rt := ct.RecvType(x.w)
		if rt == nil && sig.Recv() != nil {
			rt = sig.Recv().Type()
		}
		if i < len(args) {
			env[ct.Params[i]] = SVal{args[i], rt}
		}
		i++
	}
	for j := 0; j < sig.Params().Len(); j++ {
		if i >= len(ct.Params) || i >= len(args) {
			break
		}
		env[ct.Params[i]] = SVal{args[i], sig.Params().At(j).Type()}
		i++
	}
	pre := st.clone()
	for _, r := range ct.Requires {
		g := x.evalSpecBool(st, st, env, r.Expr, ct)
		x.oblige(st, "precondition", "pre of "+ct.Name+": "+r.Name+"@"+shortFn(st.top().fn), g)
		x.assume(st, g)
	}
	// frame: havoc what is modified
	for _, m := range ct.Modifies {
		x.havocLoc(st, pre, env, m, ct)
	}
	if !ct.Pure {
		// the callee may allocate
		nn := x.c.Fresh("next", SInt)
		x.assume(st, x.c.Le(st.next, nn))
		st.next = nn
	}
	var res []Val
	for j := 0; j < sig.Results().Len(); j++ {
		t := sig.Results().At(j).Type()
		v := x.havocVal(st, "res."+lastPart(ct.Name), t)
		res = append(res, v)
		if j < len(ct.Results) {
			env[ct.Results[j]] = SVal{v, t}
		}
	}
	for _, e := range ct.Ensures {
		g := x.evalSpecBool(st, pre, env, e.Expr, ct)
		x.assume(st, g)
	}
	k(st, res)
	return true
}

func lastPart(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

type callbackFn func(x *Exec, st *State, f *ClosureV, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool

// callbackModel: calls of unknown function values are recorded in a ghost
// trace; the function returns arbitrary values and changes nothing visible.
func (x *Exec) callbackModel() callbackFn {
	return func(x *Exec, st *State, f *ClosureV, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		c := x.c
		x.trusted["callbacks passed by the caller do not re-enter or modify the verified object"] = true
		sig := cc.Signature()
		// ghost: number of calls, and arguments of each call
		cnt := x.comp(st, "GH:calls", arr(SInt, SInt))
		n := c.Select(cnt, f.unknown)
		x.lenFacts(st, n)
		for i, a := range args {
			t := x.term(st, a)
			nm := fmt.Sprintf("GH:arg%d:%s", i, t.sort)
			h := x.comp(st, nm, arr(SInt, arr(SInt, t.sort)))
			x.setComp(st, nm, f.unknown, c.Store(h, f.unknown, c.Store(c.Select(h, f.unknown), n, t)))
			if i == 0 {
				nm := "GH:callset:" + t.sort
				h := x.comp(st, nm, arr(SInt, arr(t.sort, SBool)))
				x.setComp(st, nm, f.unknown, c.Store(h, f.unknown, c.Store(c.Select(h, f.unknown), t, c.Bool(true))))
			}
		}
		x.setComp(st, "GH:calls", f.unknown, c.Store(cnt, f.unknown, c.Add(n, c.Int(1))))
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			v := x.havocVal(st, "cbres", sig.Results().At(i).Type())
			t := x.term(st, v)
			nm := fmt.Sprintf("GH:res%d:%s", i, t.sort)
			h := x.comp(st, nm, arr(SInt, arr(SInt, t.sort)))
			x.setComp(st, nm, f.unknown, c.Store(h, f.unknown, c.Store(c.Select(h, f.unknown), n, t)))
			res = append(res, v)
		}
		k(st, res)
		return true
	}
}
