package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

const repoPrefix = "github.com/skycoin/cxo"

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == repoPrefix || strings.HasPrefix(p.Path(), repoPrefix+"/"))
}

var aliasRe = regexp.MustCompile(`\b(byte|rune)\b`)

// unalias gives byte and rune the names of what they are
func unalias(s string) string {
	return aliasRe.ReplaceAllStringFunc(s, func(m string) string {
		if m == "byte" {
			return "uint8"
		}
		return "int32"
	})
}

func tname(t types.Type) string {
	return unalias(tname0(t))
}

func tname0(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := p.Path()
		s = strings.TrimPrefix(s, repoPrefix+"/")
		s = strings.TrimPrefix(s, "github.com/skycoin/skycoin/src/")
		s = strings.TrimPrefix(s, "github.com/boltdb/")
		return s
	})
}

// opaqueStruct reports whether a struct type is treated as an opaque value
// (declared outside of the repository).
func opaqueStruct(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() != nil && !inRepo(n.Obj().Pkg())
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || opaqueStruct(t) {
		return nil, false
	}
	return s, true
}

func (x *Exec) sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return arr(SInt, x.sortOf(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			return SInt
		}
		return x.structDT(t).name
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsup("sort of type " + t.String()))
}

func (x *Exec) structDT(t types.Type) *DT {
	name := "T." + sanitize(tname(t))
	if d, ok := x.c.dts[name]; ok {
		return d
	}
	s := t.Underlying().(*types.Struct)
	var fs []DTField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fs = append(fs, DTField{fmt.Sprintf("%s.%d.%s", name, i, f.Name()), x.sortOf(f.Type())})
	}
	return x.c.datatype(name, "mk."+name, fs)
}

func (x *Exec) zero(t types.Type) *Term {
	c := x.c
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return c.Int(0)
		case u.Info()&types.IsFloat != 0:
			return c.Real("0.0")
		case u.Info()&types.IsString != 0:
			return x.strLit("")
		}
		return c.Int(0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return c.Int(0)
	case *types.Slice:
		return x.nilSlice()
	case *types.Interface:
		return x.nilIface()
	case *types.Array:
		return c.ConstArr(x.sortOf(t), x.zero(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			return c.Int(0)
		}
		d := x.structDT(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.zero(u.Field(i).Type()))
		}
		return c.App2(d.ctor, as)
	}
	panic(unsup("zero of type " + t.String()))
}

func (c *Ctx) App2(f string, as []*Term) *Term {
	if len(as) == 0 {
		return c.mk(Term{op: "#sym", name: f, sort: c.funs[f].ret})
	}
	return c.App(f, as...)
}

func (x *Exec) nilSlice() *Term {
	z := x.c.Int(0)
	return x.c.App("mk-slice", z, z, z, z)
}
func (x *Exec) nilIface() *Term {
	return x.c.App("mk-iface", x.c.Int(0), x.c.Int(0))
}

func (x *Exec) strLit(s string) *Term {
	c := x.c
	name := "str$" + fmt.Sprintf("%x", s)
	if _, ok := c.funs[name]; !ok {
		t := c.Sym(name, SStr)
		c.fun("str-len", SInt, SStr)
		c.axioms = append(c.axioms, &Axiom{trig: []string{name},
			term: c.Eq(c.App("str-len", t), c.Int(int64(len(s)))), note: "string literal length"})
		x.strs[t] = s
	}
	return c.Sym(name, SStr)
}

// intRange returns the range of an integer type
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Lsh(one, uint(bits))
		hi.Sub(hi, one)
	}
	return lo, hi, true
}

func intBits(b *types.Basic) (bits int, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, true
}

// typeFacts are facts that hold of any value of the type
func (x *Exec) typeFacts(t *Term, typ types.Type, next *Term) []*Term {
	c := x.c
	typ = types.Unalias(typ)
	if lo, hi, ok := intRange(typ); ok {
		if t.num != nil {
			return nil
		}
		return []*Term{c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))}
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return []*Term{c.Lt(t, next)}
	case *types.Map, *types.Chan:
		return []*Term{c.Le(c.Int(0), t), c.Lt(t, next)}
	case *types.Slice:
		if t.op == "mk-slice" && t.args[0].num != nil {
			return nil
		}
		ref, off, ln, cp := c.App("s-ref", t), c.App("s-off", t), c.App("s-len", t), c.App("s-cap", t)
		mx := c.Big(maxInt64)
		if sz := x.w.sizes().Sizeof(u.Elem()); sz > 0 && sz < 1<<40 {
			// a slice lies within the address space (2^48 bytes)
			mx = c.Int((1 << 48) / sz)
		}
		return []*Term{c.Le(c.Int(0), ref), c.Lt(ref, next), c.Le(c.Int(0), off), c.Le(c.Int(0), ln), c.Le(ln, cp),
			c.Le(c.Add(cp, off), mx),
			c.Imp(c.Eq(ref, c.Int(0)), c.And(c.Eq(cp, c.Int(0)), c.Eq(off, c.Int(0))))}
	case *types.Interface:
		return []*Term{c.Le(c.Int(0), c.App("i-tag", t)), c.Imp(c.Eq(c.App("i-tag", t), c.Int(0)), c.Eq(c.App("i-val", t), c.Int(0))),
			c.Lt(c.App("i-val", t), next)}
	case *types.Struct:
		if opaqueStruct(typ) {
			return nil
		}
		d := x.structDT(typ)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.typeFacts(c.App(d.fields[i].name, t), u.Field(i).Type(), next)...)
		}
		return out
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			c.fun("str-len", SInt, SStr)
			return []*Term{c.Le(c.Int(0), c.App("str-len", t))}
		}
	}
	return nil
}

var maxInt64 = new(big.Int).SetInt64(1<<63 - 1)

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
func unsup(f string, as ...interface{}) unsupported {
	return unsupported{fmt.Sprintf(f, as...)}
}

// typeTag gives a positive number to a dynamic type
func (x *Exec) typeTag(t types.Type) *Term {
	k := unalias(types.TypeString(types.Unalias(t), nil))
	n, ok := x.tags[k]
	if !ok {
		n = len(x.tags) + 1
		x.tags[k] = n
		x.tagTypes[n] = t
	}
	return x.c.Int(int64(n))
}

// box converts a value of a concrete type to an interface payload
func (x *Exec) box(t *Term, typ types.Type) *Term {
	c := x.c
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return t
	}
	b, u := x.boxFuns(typ)
	if t.op == u && len(t.args) == 1 {
		// box(unbox(p)) = p only if the tag matches; callers ensure it
	}
	return c.App(b, t)
}

func (x *Exec) boxFuns(typ types.Type) (b, u string) {
	c := x.c
	s := x.sortOf(typ)
	n := sanitize(tname(typ))
	b, u = "box."+n, "unbox."+n
	if _, ok := c.funs[b]; !ok {
		c.fun(b, SInt, s)
		c.fun(u, s, SInt)
		v := c.Var("v", s)
		c.axioms = append(c.axioms, &Axiom{trig: []string{b},
			term: c.Forall([]*Term{v}, c.And(c.Eq(c.App(u, c.App(b, v)), v), c.Lt(c.App(b, v), c.Int(0))), []*Term{c.App(b, v)}),
			note: "interface boxing is injective"})
	}
	return
}

func (x *Exec) unbox(t *Term, typ types.Type) *Term {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return t
	}
	b, u := x.boxFuns(typ)
	if t.op == b {
		return t.args[0]
	}
	return x.c.App(u, t)
}

var goSizes = types.SizesFor("gc", "amd64")

func (w *World) sizes() types.Sizes { return goSizes }
