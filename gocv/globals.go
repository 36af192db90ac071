package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// constGlobal gives the value of a package-level variable that is set by its
// initializer to constants and never written again (every use in the package
// is a read). ok is false if that cannot be established.
func (x *Exec) constGlobal(g *ssa.Global) (t *Term, ok bool) {
	if g.Pkg == nil || g.Object() == nil {
		return nil, false
	}
	if g.Object().Exported() {
		return nil, false
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	x.w.mu.Lock()
	info, done := x.w.gconst[g]
	if !done {
		info = scanGlobal(g, x.w)
		x.w.gconst[g] = info
	}
	x.w.mu.Unlock()
	if info == nil {
		return nil, false
	}
	c := x.c
	switch u := et.Underlying().(type) {
	case *types.Array:
		t := x.zero(et)
		for i := int64(0); i < u.Len(); i++ {
			if k := info.elems[i]; k != nil {
				v, ok := x.constVal(k).(*Term)
				if !ok {
					return nil, false
				}
				t = c.Store(t, c.Int(i), v)
			}
			if ty := info.types[i]; ty != nil {
				t = c.Store(t, c.Int(i), x.rtypeIface(ty))
			}
		}
		x.canon[t] = u.Len()
		return t, true
	case *types.Basic:
		if info.val == nil {
			return x.zero(et), true
		}
		v, ok := x.constVal(info.val).(*Term)
		return v, ok
	}
	return nil, false
}

type gconst struct {
	val   *ssa.Const
	elems map[int64]*ssa.Const
	types map[int64]types.Type // reflect.TypeOf of a value of the type
}

func scanGlobal(g *ssa.Global, w *World) *gconst {
	info := &gconst{elems: map[int64]*ssa.Const{}, types: map[int64]types.Type{}}
	initFn := g.Pkg.Func("init")
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	add(initFn)
	for _, f := range w.fns {
		if f.Pkg == g.Pkg {
			add(f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						uses = true
					}
				}
				if !uses {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
				case *ssa.DebugRef:
				case *ssa.Store:
					if f != initFn || in.Addr != ssa.Value(g) || info.val != nil || len(info.elems) > 0 {
						return nil
					}
					if ld, ok := in.Val.(*ssa.UnOp); ok { // composite literal
						lit, ok := ld.X.(*ssa.Alloc)
						if !ok || !info.literal(lit) {
							return nil
						}
						continue
					}
					k, ok := in.Val.(*ssa.Const)
					if !ok {
						return nil
					}
					info.val = k
				case *ssa.IndexAddr:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if i, ok := in.Index.(*ssa.Const); ok && f == initFn && r.Addr == ssa.Value(in) {
								if t := typeOfArg(r.Val); t != nil && info.types[i.Int64()] == nil {
									info.types[i.Int64()] = t
									continue
								}
							}
							k, ok := r.Val.(*ssa.Const)
							i, ok2 := in.Index.(*ssa.Const)
							if !ok || !ok2 || f != initFn || r.Addr != ssa.Value(in) {
								return nil
							}
							n := i.Int64()
							if info.elems[n] != nil {
								return nil
							}
							info.elems[n] = k
						default:
							return nil
						}
					}
				default:
					return nil
				}
			}
		}
	}
	return info
}

// literal collects the elements of an array literal
func (info *gconst) literal(lit *ssa.Alloc) bool {
	for _, r := range *lit.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			i, ok := r.Index.(*ssa.Const)
			if !ok {
				return false
			}
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					if t := typeOfArg(u.Val); t != nil && u.Addr == ssa.Value(r) && info.types[i.Int64()] == nil {
						info.types[i.Int64()] = t
						continue
					}
					k, ok := u.Val.(*ssa.Const)
					if !ok || u.Addr != ssa.Value(r) || info.elems[i.Int64()] != nil {
						return false
					}
					info.elems[i.Int64()] = k
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// constIndex is the symbolic index of a load of an element of a constant
// array: the paths are split by it
func (x *Exec) constIndex(p *PtrV) (*Term, int64) {
	if p.kind != PLoc || len(p.path) == 0 || p.path[0].idx == nil {
		return nil, 0
	}
	v, ok := x.gvals[p.comp]
	if !ok {
		return nil, 0
	}
	n, ok := x.canon[v]
	if !ok || n > 32 {
		return nil, 0
	}
	if p.path[0].idx.num != nil {
		return nil, 0
	}
	return p.path[0].idx, n
}
