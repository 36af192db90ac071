package main

import (
	"go/ast"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The binary encoder of a dependency, and the little of reflection that is
// used with it. The encoding of a value of a type is an uninterpreted function
// of the contents of its encoded fields; decoding is a function of the bytes;
// decoding an encoding gives the fields back (assumed of the dependency).

type encLeaf struct {
	path   string // dotted
	idx    []int  // field indices from the type
	typ    types.Type
	nested bool // contains slices within slices: contents are not tracked
}

func hasSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return true
	case *types.Array:
		return hasSlice(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasSlice(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func encLeaves(t types.Type) (out []encLeaf) {
	var rec func(t types.Type, path string, idx []int)
	rec = func(t types.Type, path string, idx []int) {
		switch u := t.Underlying().(type) {
		case *types.Basic, *types.Array:
			out = append(out, encLeaf{path, idx, t, hasSlice(t)})
		case *types.Slice:
			out = append(out, encLeaf{path, idx, t, hasSlice(u.Elem())})
		case *types.Struct:
			if opaqueStruct(t) {
				panic(unsup("encoding of %s", t))
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() || f.Name() == "_" || strings.HasPrefix(reflect.StructTag(u.Tag(i)).Get("enc"), "-") {
					continue
				}
				p := f.Name()
				if path != "" {
					p = path + "." + p
				}
				rec(f.Type(), p, append(append([]int(nil), idx...), i))
			}
		default:
			panic(unsup("encoding of %s", t))
		}
	}
	rec(t, "", nil)
	return
}

// encSize is the least length of an encoding, whether every encoding has this
// length, and whether any bytes of this length are an encoding
func encSize(t types.Type) (n int64, fixed, any bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1, true, false
		case types.Int8, types.Uint8:
			return 1, true, true
		case types.Int16, types.Uint16:
			return 2, true, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true, true
		case types.Int64, types.Uint64, types.Float64:
			return 8, true, true
		case types.String:
			return 4, false, false
		}
		return 0, false, false
	case *types.Slice:
		return 4, false, false
	case *types.Array:
		n, fixed, any = encSize(u.Elem())
		return n * u.Len(), fixed, any
	case *types.Struct:
		fixed, any = true, true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || f.Name() == "_" || strings.HasPrefix(reflect.StructTag(u.Tag(i)).Get("enc"), "-") {
				continue
			}
			m, fx, an := encSize(f.Type())
			n += m
			fixed, any = fixed && fx, any && an
		}
		return
	}
	return 0, false, false
}

func encName(t types.Type) string { return sanitize(tname(types.Unalias(t))) }

// leafTerm is the value of a leaf by contents
func (x *Exec) leafTerm(st *State, v *Term, l encLeaf) *Term {
	if s, ok := l.typ.Underlying().(*types.Slice); ok {
		return x.seq(st, v, s.Elem())
	}
	return v
}

func (x *Exec) leafSort(l encLeaf) Sort {
	if s, ok := l.typ.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return SBS
		}
		return x.seqDT(x.sortOf(s.Elem())).name
	}
	return x.sortOf(l.typ)
}

// nestedComps are the heap components that the contents of a nested leaf are in
func (x *Exec) nestedComps(st *State, t types.Type, out map[string]*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		n, srt := x.elemComp(u.Elem())
		out[n] = x.comp(st, n, srt)
		x.nestedComps(st, u.Elem(), out)
	case *types.Array:
		x.nestedComps(st, u.Elem(), out)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.nestedComps(st, u.Field(i).Type(), out)
		}
	}
}

func (x *Exec) encDecls(t types.Type, leaves []encLeaf, args []*Term) {
	c := x.c
	n := encName(t)
	if _, ok := c.funs["des.ok."+n]; ok {
		return
	}
	c.fun("des.ok."+n, SBool, SBS)
	c.fun("des.n."+n, SInt, SBS)
	b := c.Var("b", SBS)
	nb := c.App("des.n."+n, b)
	c.axioms = append(c.axioms, &Axiom{trig: []string{"des.n." + n}, note: "decoding reads no more than there is",
		term: c.Forall([]*Term{b}, c.Imp(c.And(c.Le(c.Int(0), c.App("bs-len", b)), c.App("des.ok."+n, b)), c.And(c.Le(c.Int(0), nb), c.Le(nb, c.App("bs-len", b)))), []*Term{nb})})
	if len(leaves) == 0 {
		c.axioms = append(c.axioms, &Axiom{trig: []string{"des.ok." + n}, note: "decoding of nothing",
			term: c.Forall([]*Term{b}, c.And(c.App("des.ok."+n, b), c.Eq(nb, c.Int(0))), []*Term{c.App("des.ok."+n, b)}, []*Term{nb})})
	}
	min, fixed, any := encSize(t)
	if len(leaves) > 0 {
		ok := c.App("des.ok."+n, b)
		f := c.Imp(ok, c.Le(c.Int(min), nb))
		if fixed {
			f = c.Imp(ok, c.Eq(nb, c.Int(min)))
			if any {
				f = c.And(c.Eq(ok, c.Le(c.Int(min), c.App("bs-len", b))), c.Eq(nb, c.Int(min)))
			}
		}
		c.axioms = append(c.axioms, &Axiom{trig: []string{"des.ok." + n}, note: "the least size of an encoding",
			term: c.Forall([]*Term{b}, c.Imp(c.Le(c.Int(0), c.App("bs-len", b)), f), []*Term{ok})})
	}
	nested := false
	for _, l := range leaves {
		c.fun("des."+n+"."+l.path, x.leafSort(l), SBS)
		nested = nested || l.nested
	}
	// ser
	var ss []Sort
	for _, l := range leaves {
		ss = append(ss, x.leafSort(l))
	}
	if nested {
		return
	}
	c.fun("ser."+n, SBS, ss...)
	if len(leaves) == 0 {
		return
	}
	var vs []*Term
	for _, s := range ss {
		vs = append(vs, c.Var("f", s))
	}
	s := c.App("ser."+n, vs...)
	cs := []*Term{c.App("des.ok."+n, s), c.Eq(c.App("des.n."+n, s), c.App("bs-len", s)), c.Le(c.Int(0), c.App("bs-len", s))}
	cs = append(cs, c.Le(c.Int(min), c.App("bs-len", s)))
	if fixed {
		cs = append(cs, c.Eq(c.Int(min), c.App("bs-len", s)))
	}
	for i, l := range leaves {
		d := c.App("des."+n+"."+l.path, s)
		if a, ok := l.typ.Underlying().(*types.Array); ok {
			_ = a // arrays are canonical where they are encoded
		}
		cs = append(cs, c.Eq(d, vs[i]))
	}
	c.axioms = append(c.axioms, &Axiom{trig: []string{"ser." + n}, note: "decoding an encoding gives the fields",
		term: c.Forall(vs, c.And(cs...), []*Term{s})})
	if len(leaves) == 1 {
		if a, ok := leaves[0].typ.Underlying().(*types.Array); ok {
			if bb, ok := a.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 {
				c.axioms = append(c.axioms, &Axiom{trig: []string{"ser." + n}, note: "an array of bytes is encoded as it is",
					term: c.Forall(vs, c.Eq(s, c.App("mk-bs", c.Int(a.Len()), vs[0])), []*Term{s})})
			}
		}
	}
}

// serTerm is the encoding of the value
func (x *Exec) serTerm(st *State, v *Term, t types.Type) *Term {
	c := x.c
	leaves := encLeaves(t)
	var args []*Term
	extra := map[string]*Term{}
	for _, l := range leaves {
		lv := v
		ty := t
		for _, i := range l.idx {
			lv = c.App(x.structDT(ty).fields[i].name, lv)
			ty = ty.Underlying().(*types.Struct).Field(i).Type()
		}
		if a, ok := l.typ.Underlying().(*types.Array); ok {
			// the same array, with nothing beyond its length
			if _, ok := x.canon[lv]; !ok {
				x.canon[lv] = a.Len()
			}
		}
		args = append(args, x.leafTerm(st, lv, l))
		if l.nested {
			x.nestedComps(st, l.typ, extra)
		}
	}
	x.encDecls(t, leaves, args)
	n := "ser." + encName(t)
	if len(args) == 0 {
		return c.App("mk-bs", c.Int(0), c.ConstArr(arr(SInt, SInt), c.Int(0)))
	}
	for _, k := range sortedKeys(extra) {
		args = append(args, extra[k])
	}
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	if _, ok := c.funs[n]; !ok {
		c.fun(n, SBS, ss...)
	}
	r := c.App(n, args...)
	x.assume(st, c.And(c.Le(c.Int(0), c.App("bs-len", r)), c.Lt(c.App("bs-len", r), c.Int(1<<62))))
	return r
}

// leafPtr is the address of a leaf
func (x *Exec) leafPtr(p *PtrV, l encLeaf) *PtrV {
	for _, i := range l.idx {
		p = x.fieldPtr(p, i)
	}
	return p
}

type RValV struct {
	val Val // a pointer
	typ types.Type
}

func (x *Exec) deserialize(st *State, bs *Term, iv *IfaceV, cc *ssa.CallCommon, k func(*State, []Val)) bool {
	c := x.c
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok {
		k(st, []Val{c.Int(0), x.newError(st)})
		return true
	}
	p := x.asPtr(iv.val, iv.typ)
	t := pt.Elem()
	leaves := encLeaves(t)
	x.encDecls(t, leaves, nil)
	n := encName(t)
	okT := c.App("des.ok."+n, bs)
	uint64T := types.Typ[types.Uint64]
	yes, no := true, true
	if len(leaves) == 0 {
		no = false
	}
	if yes && no {
		o := st.clone()
		x.paths++
		x.assume(o, c.Not(okT))
		for _, l := range leaves {
			x.store(o, x.leafPtr(p, l), x.havocVal(o, "undecoded", l.typ))
		}
		k(o, []Val{x.havocVal(o, "read", uint64T), x.newError(o)})
		x.work = append(x.work, o)
	}
	x.assume(st, okT)
	for _, l := range leaves {
		d := c.App("des."+n+"."+l.path, bs)
		if s, ok := l.typ.Underlying().(*types.Slice); ok {
			dd := c.dts[d.sort]
			var ln, data *Term
			if d.sort == SBS {
				ln, data = c.App("bs-len", d), c.App("bs-data", d)
				x.canonBytes(d)
			} else {
				ln, data = c.App(dd.fields[0].name, d), c.App(dd.fields[1].name, d)
			}
			x.lenFacts(st, ln)
			sl := x.sliceFrom(st, s.Elem(), data, ln)
			x.trusted["a decoded empty slice is taken as not nil"] = true
			x.store(st, x.leafPtr(p, l), sl)
			continue
		}
		if a, ok := l.typ.Underlying().(*types.Array); ok {
			x.canon[d] = a.Len()
		}
		x.facts(st, d, l.typ)
		x.store(st, x.leafPtr(p, l), x.lift(d, l.typ))
	}
	nt := c.App("des.n."+n, bs)
	x.assume(st, c.And(c.Le(c.Int(0), nt), c.Le(nt, c.App("bs-len", bs))))
	k(st, []Val{nt, x.nilIface()})
	return true
}

const encNote = "the encoder of skycoin: encoding is a function of the encoded fields, decoding of the bytes, and decoding an encoding gives the fields back; it does not panic; an encoding is shorter than 2^62"

func init() {
	models["cipher/encoder.Serialize"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		c := x.c
		x.trusted[encNote] = true
		if iv, ok := args[0].(*IfaceV); ok {
			t := iv.typ
			v := iv.val
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				p := x.asPtr(v, t)
				x.nilCheck(st, p)
				v, t = x.load(st, p), pt.Elem()
			}
			return []Val{x.newBytes(st, x.serTerm(st, x.term(st, v), t))}
		}
		// a value of unknown type: the encoding is recorded
		o := c.App("i-val", x.term(st, args[0]))
		b := c.Fresh("encoding", SBS)
		x.assume(st, c.And(c.Le(c.Int(0), c.App("bs-len", b)), c.Lt(c.App("bs-len", b), c.Int(1<<62))))
		x.lenFacts(st, c.App("bs-len", b))
		h := x.comp(st, "GH:serialized", arr(SInt, SBS))
		x.setComp(st, "GH:serialized", o, c.Store(h, o, b))
		return []Val{x.newBytes(st, b)}
	})
	models["cipher/encoder.DeserializeRaw"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		x.trusted[encNote] = true
		bs := x.bytesOf(st, x.term(st, args[0]))
		if iv, ok := args[1].(*IfaceV); ok {
			return x.deserialize(st, bs, iv, cc, k)
		}
		c := x.c
		x.trusted["decoding into a value of the caller changes that value only"] = true
		o := c.App("i-val", x.term(st, args[1]))
		h := x.comp(st, "GH:decodedfrom", arr(SInt, SBS))
		x.setComp(st, "GH:decodedfrom", o, c.Store(h, o, bs))
		er := x.havocVal(st, "deserr", types.Universe.Lookup("error").Type())
		k(st, []Val{x.havocVal(st, "read", types.Typ[types.Uint64]), er})
		return true
	}
	models["cipher/encoder.DeserializeRawToValue"] = func(x *Exec, st *State, args []Val, cc *ssa.CallCommon, k func(*State, []Val)) bool {
		x.trusted[encNote] = true
		rv, ok := args[1].(*RValV)
		if !ok {
			panic(unsup("decoding into an unknown value"))
		}
		return x.deserialize(st, x.bytesOf(st, x.term(st, args[0])), &IfaceV{rv.typ, rv.val}, cc, k)
	}
	models["reflect.New"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		t := x.term(st, args[0])
		v := x.unbox(x.c.App("i-val", t), rtypeType)
		if v.num == nil {
			panic(unsup("reflect.New of an unknown type"))
		}
		ty, ok := x.tagTypes[int(v.num.Int64())]
		if !ok {
			x.safety(st, "reflect.New of nil", x.c.Bool(false))
			panic(unsup("reflect.New of nil"))
		}
		return []Val{&RValV{x.allocVar(st, ty, "reflect.New"), types.NewPointer(ty)}}
	})
	models["(reflect.Value).Interface"] = simple(func(x *Exec, st *State, args []Val, cc *ssa.CallCommon) []Val {
		rv, ok := args[0].(*RValV)
		if !ok {
			panic(unsup("Interface of an unknown value"))
		}
		return []Val{&IfaceV{rv.typ, rv.val}}
	})
}

// rtypeIface is the reflect.Type of a type
func (x *Exec) rtypeIface(t types.Type) *Term {
	return x.c.App("mk-iface", x.typeTag(rtypeType), x.box(x.typeTag(t), rtypeType))
}

var rtypeType = types.NewNamed(types.NewTypeName(0, nil, "reflect.rtype", nil), types.Typ[types.Int], nil)

// typeOfArg is the type that reflect.TypeOf is called with in an initializer
func typeOfArg(v ssa.Value) types.Type {
	if ct, ok := v.(*ssa.ChangeInterface); ok {
		v = ct.X
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	f, ok := call.Call.Value.(*ssa.Function)
	if !ok || f.String() != "reflect.TypeOf" {
		return nil
	}
	mi, ok := call.Call.Args[0].(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	return mi.X.Type()
}

//
// in specifications: ser(v), desok(T, bytes), desn(T, bytes), desf(T, bytes, field)
//

func (sc *scope) encCall(name string, args []ast.Expr) SVal {
	x, c := sc.x, sc.x.c
	if name == "ser" {
		v := sc.eval(args[0])
		t := v.t
		if a, ok := v.v.(addrV); ok {
			v = SVal{sc.load(sc.cur, a.p), a.p.elem}
			t = a.p.elem
		} else if pt, ok := t.Underlying().(*types.Pointer); ok {
			p := x.asPtr(v.v, t)
			v, t = SVal{sc.load(sc.cur, p), p.elem}, pt.Elem()
		}
		return SVal{x.serTerm(sc.cur, sc.term(v), t), nil}
	}
	t := sc.typ(args[0])
	if name == "serof" { // the encoding of a value with these fields
		leaves := encLeaves(t)
		if len(leaves) != len(args)-1 {
			panic(serr("%s has %d encoded fields", t, len(leaves)))
		}
		var as []*Term
		for i, l := range leaves {
			a := sc.term(sc.eval(args[i+1]))
			if _, ok := l.typ.Underlying().(*types.Slice); ok && a.sort == SSlice {
				a = x.leafTerm(sc.cur, a, l)
			}
			if ar, ok := l.typ.Underlying().(*types.Array); ok {
				x.canon[a] = ar.Len()
			}
			as = append(as, a)
		}
		x.encDecls(t, leaves, as)
		n := "ser." + encName(t)
		if _, ok := c.funs[n]; !ok {
			var ss []Sort
			for _, a := range as {
				ss = append(ss, a.sort)
			}
			c.fun(n, SBS, ss...)
		}
		return SVal{c.App(n, as...), nil}
	}
	b := sc.term(sc.eval(args[1]))
	if b.sort == SSlice {
		b = x.bytesOf(sc.cur, b)
	}
	leaves := encLeaves(t)
	x.encDecls(t, leaves, nil)
	n := encName(t)
	switch name {
	case "desok":
		return sc.boolV(c.App("des.ok."+n, b))
	case "desn":
		return SVal{c.App("des.n."+n, b), tInt}
	}
	path := ""
	if len(args) > 2 {
		path = exprStr(args[2])
	}
	for _, l := range leaves {
		if l.path != path {
			continue
		}
		d := c.App("des."+n+"."+path, b)
		if _, ok := l.typ.Underlying().(*types.Slice); ok {
			return SVal{d, nil}
		}
		if a, ok := l.typ.Underlying().(*types.Array); ok {
			x.canon[d] = a.Len()
		}
		return SVal{x.lift(d, l.typ), l.typ}
	}
	panic(serr("no encoded field %s of %s", path, t))
}
