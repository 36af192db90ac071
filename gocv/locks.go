package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locking obligations. A contract may say
//
//	guarded d.mx: d.last, d.kvs[*], captured
//
// Then the state of the mutex is tracked (0 free, -1 locked for writing, n>0
// locked n times for reading, by this call), and there is an obligation that
//   - every read of a guarded location happens while it is locked,
//   - every write happens while it is locked for writing,
//   - a lock is not taken by a call that has it, nor released by one that has
//     not,
//   - on return the state is that of the entry: free, or, after "holds d.mx"
//     (or "rholds"), locked.
type guardDecl struct {
	Mutex Clause
	Locs  []Clause
}

type guard struct {
	name string
	mcmp string
	mref *Term
	locs []location
	cell map[int]bool
	init int64
}

func lockComp(comp string) string { return "LK:" + comp }

func (x *Exec) setupGuards(st *State, env map[string]SVal) {
	for _, g := range x.ct.Guards {
		sc := &scope{x: x, cur: st, old: st, env: env, pkg: x.ct.Pkg}
		gd := &guard{name: g.Mutex.Text, cell: map[int]bool{}}
		gd.mcmp, gd.mref = x.mutexOf(st, sc, g.Mutex)
		for _, l := range g.Locs {
			if id, ok := identOf(l.Expr); ok {
				if v, ok := env[id]; ok {
					if vv, ok := v.v.(varV); ok {
						switch vv.p.kind {
						case PCell:
							gd.cell[vv.p.cell] = true
							continue
						default:
							gd.locs = append(gd.locs, x.ptrLocs(st, vv.p, vv.p.elem)...)
							continue
						}
					}
				}
			}
			gd.locs = append(gd.locs, x.locations(st, env, l, x.ct)...)
		}
		for _, h := range x.ct.Holds {
			cm, cr := x.mutexOf(st, sc, h.Clause)
			if cm == gd.mcmp && cr == gd.mref {
				gd.init = h.State
			}
		}
		h := x.comp(st, lockComp(gd.mcmp), arr(SInt, SInt))
		x.assume(st, x.c.Eq(x.c.Select(h, gd.mref), x.c.Int(gd.init)))
		x.guards = append(x.guards, gd)
	}
}

func (x *Exec) mutexOf(st *State, sc *scope, m Clause) (string, *Term) {
	ls := x.locations(st, sc.env, m, x.ct)
	if len(ls) != 1 || ls[0].ref == nil {
		panic(serr("not a mutex: %s", m.Text))
	}
	return ls[0].comp, ls[0].ref
}

// tracked tells whether the state of the mutex is tracked
func (x *Exec) tracked(comp string) bool {
	for _, g := range x.guards {
		if g.mcmp == comp {
			return true
		}
	}
	return false
}

// lockOp models Lock, Unlock, RLock and RUnlock
func (x *Exec) lockOp(st *State, op string, v Val) {
	p, ok := v.(*PtrV)
	if !ok || p.kind == PCell || p.ref == nil || !x.tracked(p.comp) {
		x.trusted["mutexes whose use is not under a locking obligation are ignored: their critical sections are taken as atomic"] = true
		return
	}
	c := x.c
	n := lockComp(p.comp)
	h := x.comp(st, n, arr(SInt, SInt))
	s := c.Select(h, p.ref)
	var pre, now *Term
	what := ""
	switch op {
	case "Lock":
		pre, now, what = c.Eq(s, c.Int(0)), c.Int(-1), "not locked by this call already"
	case "Unlock":
		pre, now, what = c.Eq(s, c.Int(-1)), c.Int(0), "unlocked by the call that locked it"
	case "RLock":
		pre, now, what = c.Eq(s, c.Int(0)), c.Int(1), "not locked by this call already"
	case "RUnlock":
		pre, now, what = c.Lt(c.Int(0), s), c.Sub(s, c.Int(1)), "unlocked by the call that locked it"
	}
	x.lockOblige(st, what+": "+lastPart(p.comp), pre)
	x.setComp(st, n, p.ref, c.Store(h, p.ref, now))
}

func (x *Exec) lockOblige(st *State, what string, cond *Term) {
	name := what + "@" + shortFn(st.top().fn)
	if x.c.isTrue(cond) || x.mute == 0 && x.sol.entails(x, st, cond) {
		if x.mute == 0 {
			*x.obls = append(*x.obls, &Obligation{Fn: x.ct.Name, Kind: "locking", Name: x.ct.Name + "/" + name, Pos: x.curPos(st), Status: "proved", Solver: x.sol.name})
		}
		return
	}
	x.oblige(st, "locking", name, cond)
}

// access checks a read or a write of a location
func (x *Exec) access(st *State, p *PtrV, write bool) {
	if len(x.guards) == 0 || x.mute > 0 {
		return
	}
	if p.kind == PObj {
		s, ok := isStruct(p.elem)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			x.access(st, x.fieldPtr(p, i), write)
		}
		return
	}
	if p.kind == PCell {
		for _, g := range x.guards {
			if g.cell[p.cell] {
				x.guardCheck(st, g, x.cellName[p.cell], x.c.Bool(false), write)
			}
		}
		return
	}
	x.accessLoc(st, p.comp, p.ref, write)
}

func (x *Exec) accessLoc(st *State, comp string, ref *Term, write bool) {
	if len(x.guards) == 0 || x.mute > 0 {
		return
	}
	for _, g := range x.guards {
		for _, l := range g.locs {
			if l.comp != comp {
				continue
			}
			other := x.c.Bool(false)
			if l.ref != nil {
				other = x.c.Neq(ref, l.ref)
			}
			if x.c.isTrue(other) {
				continue
			}
			x.guardCheck(st, g, lastPart(strings.TrimPrefix(comp, "H:")), other, write)
		}
	}
}

func (x *Exec) accessMap(st *State, ref *Term, mt *types.Map, write bool) {
	if len(x.guards) == 0 || x.mute > 0 {
		return
	}
	d, _, _, _, _ := x.mapComps(mt)
	x.accessLoc(st, d, ref, write)
}

func (x *Exec) accessSlice(st *State, s *Term, t types.Type, write bool) {
	if len(x.guards) == 0 || x.mute > 0 {
		return
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		n, _ := x.elemComp(sl.Elem())
		x.accessLoc(st, n, x.c.App("s-ref", s), write)
	}
}

func (x *Exec) guardCheck(st *State, g *guard, what string, other *Term, write bool) {
	c := x.c
	h := x.comp(st, lockComp(g.mcmp), arr(SInt, SInt))
	s := c.Select(h, g.mref)
	cond := c.Neq(s, c.Int(0))
	w := "read"
	if write {
		cond = c.Eq(s, c.Int(-1))
		w = "written"
	}
	x.lockOblige(st, what+" is "+w+" with "+g.name+" locked", c.Or(other, cond))
}

// accessStep checks the accesses of one instruction
func (x *Exec) accessStep(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			if p, ok := x.get(st, fr, in.X).(*PtrV); ok {
				x.access(st, p, false)
			}
		}
	case *ssa.Store:
		if p, ok := x.get(st, fr, in.Addr).(*PtrV); ok {
			x.access(st, p, true)
		}
	case *ssa.MapUpdate:
		x.accessMap(st, x.term(st, x.get(st, fr, in.Map)), in.Map.Type().Underlying().(*types.Map), true)
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			x.accessMap(st, x.term(st, x.get(st, fr, in.X)), mt, false)
		}
	case *ssa.Next:
		if it, ok := x.get(st, fr, in.Iter).(*IterV); ok {
			x.accessMap(st, it.m, it.mt, false)
		}
	case *ssa.Call:
		b, ok := in.Call.Value.(*ssa.Builtin)
		if !ok || len(in.Call.Args) == 0 {
			return
		}
		a0, t0 := x.get(st, fr, in.Call.Args[0]), in.Call.Args[0].Type()
		mt, isMap := t0.Underlying().(*types.Map)
		switch b.Name() {
		case "len":
			if isMap {
				x.accessMap(st, x.term(st, a0), mt, false)
			}
		case "delete":
			x.accessMap(st, x.term(st, a0), mt, true)
		case "copy", "append":
			x.accessSlice(st, x.term(st, a0), t0, true)
			if len(in.Call.Args) > 1 {
				x.accessSlice(st, x.term(st, x.get(st, fr, in.Call.Args[1])), in.Call.Args[1].Type(), false)
			}
		}
	}
}

// locksAtReturn checks that the call leaves the mutexes as it found them
func (x *Exec) locksAtReturn(st *State) {
	for _, g := range x.guards {
		h := x.comp(st, lockComp(g.mcmp), arr(SInt, SInt))
		x.oblige(st, "locking", g.name+" is left as it was on return", x.c.Eq(x.c.Select(h, g.mref), x.c.Int(g.init)))
	}
}

func identOf(e interface{}) (string, bool) {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name, true
	}
	return "", false
}
