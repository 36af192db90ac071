package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// naturalLoops computes header -> body of a function
func naturalLoops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return out
}

type loopView struct {
	st   *State
	phis []Val
}

type cand struct {
	name string
	eval func(v loopView) *Term // may return nil
	user bool
}

type wset struct {
	olds  map[*Term]bool
	fresh bool
	other bool
}

func (x *Exec) isOldTerm(t *Term, mark int, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	if t.op == "#sym" {
		r = t.id < mark || strings.HasPrefix(t.name, "H:")
	}
	for _, a := range t.args {
		if !x.isOldTerm(a, mark, memo) {
			r = false
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) freshInLoop(t *Term, mark int) bool {
	b, _ := x.c.split(t)
	return b != nil && b.op == "#sym" && b.id >= mark && strings.HasPrefix(b.name, "next!")
}

func (x *Exec) explore(sts ...*State) {
	saved := x.work
	x.work = append([]*State(nil), sts...)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(s)
	}
	x.work = saved
}

func (x *Exec) enterLoop(st *State, fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	c := x.c
	var phis []*ssa.Phi
	for _, in := range header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	edge := func(s *State) []Val {
		f := s.top()
		pi := -1
		for i, p := range header.Preds {
			if p == f.prev {
				pi = i
			}
		}
		var vs []Val
		for _, p := range phis {
			vs = append(vs, x.get(s, f, p.Edges[pi]))
		}
		return vs
	}
	entry := loopView{st, edge(st)}
	mark := len(c.terms)
	W := map[string]*wset{}
	outerLog := st.log

	// a state inside of the loop, after havoc
	inside := func() (s *State, vals []Val, log *[]write) {
		s = st.clone()
		var l []write
		s.log = &l
		nn := c.Fresh("next", SInt)
		x.assume(s, c.Le(st.next, nn))
		s.next = nn
		for _, name := range sortedKeys(W) {
			w := W[name]
			if strings.HasPrefix(name, "cell:") {
				var id int
				fmt.Sscanf(name, "cell:%d", &id)
				if _, ok := st.cells[id]; !ok {
					continue // created inside
				}
				if ty, ok := x.cellType[id]; ok {
					s.cells[id] = x.havocVal(s, "cell", ty)
				} else if t, ok := s.cells[id].(*Term); ok {
					s.cells[id] = c.Fresh("ghost", t.sort)
				} else {
					panic(unsup("loop modifies cell %d", id))
				}
				continue
			}
			old := x.comp(s, name, x.compSort[name])
			switch {
			case w.other:
				s.heap[name] = c.Fresh("hv", old.sort)
			case w.fresh:
				h := c.Fresh("hv", old.sort)
				r := c.Var("r", SInt)
				cond := []*Term{c.Lt(r, st.next)}
				for o := range w.olds {
					cond = append(cond, c.Neq(r, o))
				}
				x.assume(s, c.Forall([]*Term{r}, c.Imp(c.And(cond...), c.Eq(c.Select(h, r), c.Select(old, r))), []*Term{c.Select(h, r)}))
				s.heap[name] = h
			default:
				h := old
				_, es := arrElems(old.sort)
				for _, o := range termList(w.olds) {
					v := c.Fresh("hv", es)
					h = c.Store(h, o, v)
				}
				s.heap[name] = h
			}
		}
		f := s.top()
		for i, p := range phis {
			var v Val
			switch e := entry.phis[i].(type) {
			case *ClosureV:
				if e.unknown == nil {
					v = e // assumed constant; checked at back edges
				}
			}
			if v == nil {
				v = x.havocVal(s, "phi."+p.Comment, p.Type())
			}
			f.env[p] = v
			vals = append(vals, v)
		}
		f.block = header
		f.idx = len(phis)
		return s, vals, &l
	}

	pass := func(cands []cand) (back, exits []*State, log []write, vals []Val) {
		s, vals, l := inside()
		for _, cd := range cands {
			if t := cd.eval(loopView{s, vals}); t != nil {
				x.assume(s, t)
			}
		}
		s.loops = append(s.loops, &loopCtx{header, body, len(s.frames), &back, &exits})
		x.explore(s)
		return back, exits, *l, vals
	}

	// write set to a fixpoint
	x.mute++
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(unsup("loop write set"))
		}
		_, _, log, _ := pass(nil)
		ch := false
		memo := map[*Term]bool{}
		for _, w := range log {
			e := W[w.comp]
			if e == nil {
				if strings.HasPrefix(w.comp, "cell:") {
					var id int
					fmt.Sscanf(w.comp, "cell:%d", &id)
					if _, ok := st.cells[id]; !ok {
						continue // created inside
					}
				}
				e = &wset{olds: map[*Term]bool{}}
				W[w.comp] = e
				ch = true
			}
			switch {
			case w.ref == nil:
				if !e.other {
					e.other = true
					ch = true
				}
			case x.isOldTerm(w.ref, mark, memo):
				if !e.olds[w.ref] {
					e.olds[w.ref] = true
					ch = true
				}
			case x.freshInLoop(w.ref, mark):
				if !e.fresh {
					e.fresh = true
					ch = true
				}
			default:
				if !e.other {
					e.other = true
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	x.mute--

	cands := x.candidates(st, fr, header, body, phis, entry, W)
	// keep those holding at entry
	var keep []cand
	{
		var goals []*Term
		var cs []cand
		for _, cd := range cands {
			if t := cd.eval(entry); t != nil {
				goals = append(goals, t)
				cs = append(cs, cd)
			}
		}
		res := x.proveAll(st.pc, goals)
		for i, ok := range res {
			if ok {
				keep = append(keep, cs[i])
			} else if cs[i].user || strings.HasSuffix(cs[i].name, "here") || strings.HasSuffix(cs[i].name, "see it") {
				debugf("%s: loop candidate fails at entry: %s", x.ct.Name, cs[i].name)
			}
		}
	}
	savedObls := x.obls
	var finalObls []*Obligation
	var exits []*State
	var log []write
	for iter := 0; ; iter++ {
		var tmp []*Obligation
		x.obls = &tmp
		var back []*State
		back, exits, log, _ = pass(keep)
		x.obls = savedObls
		drop := map[int]bool{}
		for _, b := range back {
			bv := loopView{b, edge(b)}
			for i := range phis {
				if e, ok := entry.phis[i].(*ClosureV); ok && e.unknown == nil {
					if bv.phis[i] != entry.phis[i] {
						panic(unsup("function value changes in a loop"))
					}
				}
			}
			var goals []*Term
			var idx []int
			for i, cd := range keep {
				if drop[i] {
					continue
				}
				t := cd.eval(bv)
				if t == nil {
					drop[i] = true
					continue
				}
				goals = append(goals, t)
				idx = append(idx, i)
			}
			for j, ok := range x.proveAll(b.pc, goals) {
				if !ok {
					drop[idx[j]] = true
					if keep[idx[j]].user || strings.HasSuffix(keep[idx[j]].name, "here") || strings.HasSuffix(keep[idx[j]].name, "see it") {
						debugf("%s: loop candidate not preserved: %s", x.ct.Name, keep[idx[j]].name)
					}
				}
			}
		}
		if len(drop) == 0 {
			finalObls = tmp
			break
		}
		var nk []cand
		for i, cd := range keep {
			if !drop[i] {
				nk = append(nk, cd)
			}
		}
		keep = nk
		if iter > 40 {
			panic(unsup("loop invariant inference does not stabilise"))
		}
	}
	if x.mute == 0 {
		*x.obls = append(*x.obls, finalObls...)
		for _, k := range keep {
			x.invs[shortFn(fr.fn)+": "+k.name] = true
		}
	}
	if outerLog != nil {
		*outerLog = append(*outerLog, log...)
	}
	for _, e := range exits {
		e.loops = e.loops[:len(e.loops)-1]
		e.log = outerLog
		f := e.top()
		from, to := f.prev, f.block
		f.block = from
		if x.jump(e, f, to) {
			x.work = append(x.work, e)
		}
	}
}

func termList(m map[*Term]bool) (ts []*Term) {
	for t := range m {
		ts = append(ts, t)
	}
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].id < ts[i].id {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
	return
}

// candidates for the invariant of a loop: automatic ones and the templates of
// the contract, instantiated with the variables of the loop
func (x *Exec) candidates(st *State, fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, entry loopView, W map[string]*wset) (out []cand) {
	c := x.c
	type hole struct {
		name string
		get  func(v loopView) *Term
		typ  types.Type
		kind byte
	}
	var holes []hole
	kindOf := func(t types.Type) byte {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return 'i'
			}
			if u.Info()&types.IsBoolean != 0 {
				return 'b'
			}
			if u.Info()&types.IsFloat != 0 {
				return 'f'
			}
			return 'p'
		case *types.Slice:
			return 's'
		case *types.Interface:
			return 'e'
		}
		return 'p'
	}
	var ints []int
	for i, p := range phis {
		i := i
		switch entry.phis[i].(type) {
		case *ClosureV:
			continue
		case *PtrV:
			if q := entry.phis[i].(*PtrV); q.kind != PObj && q.kind != PArr {
				continue
			}
		}
		get := func(v loopView) *Term { return x.term(v.st, v.phis[i]) }
		k := kindOf(p.Type())
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		holes = append(holes, hole{nm, get, p.Type(), k})
		if k == 'i' {
			ints = append(ints, i)
			holes = append(holes, hole{nm + "+1", func(v loopView) *Term { return c.Add(get(v), c.Int(1)) }, types.Typ[types.UntypedInt], k})
		}
	}
	for _, name := range sortedKeys(W) {
		if !strings.HasPrefix(name, "cell:") {
			continue
		}
		var id int
		fmt.Sscanf(name, "cell:%d", &id)
		if _, ok := st.cells[id]; !ok {
			continue
		}
		get := func(v loopView) *Term { return x.term(v.st, v.st.cells[id]) }
		if ty, ok := x.cellType[id]; ok {
			holes = append(holes, hole{x.cellName[id], get, ty, kindOf(ty)})
		} else {
			holes = append(holes, hole{x.cellName[id], get, nil, 'v'})
		}
	}
	// loop-invariant values used in the loop
	seen := map[ssa.Value]bool{}
	var iters []*IterV
	var liveins []ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				if _, ok := fr.env[v]; !ok {
					continue
				}
				if vi, ok := v.(ssa.Instruction); ok && body[vi.Block()] {
					continue
				}
				seen[v] = true
				liveins = append(liveins, v)
			}
		}
	}
	for _, v := range liveins {
		v := v
		val := fr.env[v]
		switch q := val.(type) {
		case *Term:
		case *PtrV:
			if q.kind != PObj {
				continue
			}
		case *IfaceV:
		case *ClosureV:
			// variables captured by a function the loop calls
			for i, b := range q.bindings {
				p, ok := b.(*PtrV)
				if !ok || p.kind != PCell || len(p.path) > 0 || q.fn == nil || i >= len(q.fn.FreeVars) {
					continue
				}
				if _, ok := W[fmt.Sprintf("cell:%d", p.cell)]; ok {
					continue
				}
				switch cv := st.cells[p.cell].(type) {
				case *Term:
				case *IfaceV:
				case *PtrV:
					if cv.kind != PObj {
						continue
					}
				default:
					continue
				}
				t := x.term(st, st.cells[p.cell])
				holes = append(holes, hole{q.fn.FreeVars[i].Name(), func(loopView) *Term { return t }, p.elem, kindOf(p.elem) - 32})
			}
			continue
		case *IterV:
			iters = append(iters, q)
			continue
		default:
			continue
		}
		t := x.term(st, val)
		holes = append(holes, hole{v.Name(), func(loopView) *Term { return t }, v.Type(), kindOf(v.Type()) - 32}) // upper case: constants
	}
	add := func(name string, user bool, f func(v loopView) *Term) {
		out = append(out, cand{name: name, user: user, eval: func(v loopView) (r *Term) {
			defer func() {
				if e := recover(); e != nil {
					debugf("candidate %s: %v", name, e)
					r = nil
				}
			}()
			return f(v)
		}})
	}
	// interface values (errors) that stay as they were
	for i, p := range phis {
		i := i
		if kindOf(p.Type()) != 'e' {
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Interface); !ok {
			continue
		}
		e := x.term(st, entry.phis[i])
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		add(nm+" == entry", false, func(v loopView) *Term { return c.Eq(e, x.term(v.st, v.phis[i])) })
	}
	// bounds by entry values
	for _, i := range ints {
		i := i
		e := x.term(st, entry.phis[i])
		nm := phis[i].Comment
		p := func(v loopView) *Term { return x.term(v.st, v.phis[i]) }
		add(nm+" >= entry", false, func(v loopView) *Term { return c.Le(e, p(v)) })
		add(nm+" <= entry", false, func(v loopView) *Term { return c.Le(p(v), e) })
		for _, j := range ints {
			if j <= i {
				continue
			}
			j := j
			q := func(v loopView) *Term { return x.term(v.st, v.phis[j]) }
			ej := x.term(st, entry.phis[j])
			add(nm+"-"+phis[j].Comment+" const", false, func(v loopView) *Term { return c.Eq(c.Sub(p(v), q(v)), c.Sub(e, ej)) })
			add(nm+"+"+phis[j].Comment+" const", false, func(v loopView) *Term { return c.Eq(c.Add(p(v), q(v)), c.Add(e, ej)) })
		}
		for k, ph := range phis {
			k := k
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				es := x.term(st, entry.phis[k])
				add("len("+ph.Comment+") follows "+nm, false, func(v loopView) *Term {
					return c.Eq(c.Sub(c.App("s-len", x.term(v.st, v.phis[k])), c.App("s-len", es)), c.Sub(p(v), e))
				})
			}
		}
	}
	for k, ph := range phis {
		k := k
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			es := x.term(st, entry.phis[k])
			sl := func(v loopView) *Term { return x.term(v.st, v.phis[k]) }
			add("len("+ph.Comment+") >= entry", false, func(v loopView) *Term { return c.Le(c.App("s-len", es), c.App("s-len", sl(v))) })
			// either still the entry slice or a new one
			add(ph.Comment+" is fresh or entry", false, func(v loopView) *Term {
				return c.Or(c.Le(st.next, c.App("s-ref", sl(v))), c.And(c.Eq(c.App("s-ref", sl(v)), c.App("s-ref", es)), c.Eq(c.App("s-off", sl(v)), c.App("s-off", es)), c.Eq(c.App("s-cap", sl(v)), c.App("s-cap", es))), c.Eq(c.App("s-cap", sl(v)), c.Int(0)))
			})
			add(ph.Comment+" is fresh", false, func(v loopView) *Term {
				return c.Or(c.Le(st.next, c.App("s-ref", sl(v))), c.Eq(c.App("s-cap", sl(v)), c.Int(0)))
			})
			add("off("+ph.Comment+")+cap const", false, func(v loopView) *Term {
				return c.And(c.Eq(c.App("s-ref", sl(v)), c.App("s-ref", es)), c.Eq(c.Add(c.App("s-off", sl(v)), c.App("s-len", sl(v))), c.Add(c.App("s-off", es), c.App("s-len", es))))
			})
		}
	}
	// slices kept in memory that the loop changes: made by the function
	made := func(t *Term) *Term {
		return c.Or(c.Le(x.next0, c.App("s-ref", t)), c.Eq(c.App("s-cap", t), c.Int(0)))
	}
	for _, name := range sortedKeys(W) {
		name := name
		if strings.HasPrefix(name, "cell:") {
			var id int
			fmt.Sscanf(name, "cell:%d", &id)
			if v, ok := st.cells[id].(*Term); ok && v.sort == SSlice {
				add(x.cellName[id]+" made here", false, func(v loopView) *Term { return made(x.term(v.st, v.st.cells[id])) })
			}
			continue
		}
		if strings.HasPrefix(name, "GH:") || strings.HasPrefix(name, "LK:") {
			continue
		}
		w := W[name]
		srt := x.compSort[name]
		if _, es := arrElems(srt); es == SSlice && !w.other {
			for _, o := range termList(w.olds) {
				o := o
				add(name+" made here", false, func(v loopView) *Term { return made(c.Select(x.comp(v.st, name, srt), o)) })
			}
		}
		if w.other && x.ct.HasFrame {
			old := x.comp(st, name, srt)
			add(name+" as it was, where the caller can see it", false, func(v loopView) *Term {
				r := c.Var("r", SInt)
				h := c.Select(x.comp(v.st, name, srt), r)
				cond := c.Lt(r, x.next0)
				if _, ok := c.funs["obj-root"]; ok {
					cond = c.And(cond, c.Lt(c.App("obj-root", r), x.next0))
				}
				return c.Forall([]*Term{r}, c.Imp(cond, c.Eq(h, c.Select(old, r))), []*Term{h})
			})
		}
	}
	// guards
	phiIdx := map[ssa.Value]int{}
	for i, p := range phis {
		phiIdx[p] = i
	}
	var inv func(v ssa.Value) *Term
	inv = func(v ssa.Value) *Term {
		if k, ok := v.(*ssa.Const); ok {
			if t, ok := x.constVal(k).(*Term); ok {
				return t
			}
			return nil
		}
		if val, ok := fr.env[v]; ok {
			if vi, ok := v.(ssa.Instruction); !ok || !body[vi.Block()] {
				if t, ok := val.(*Term); ok {
					return t
				}
				return nil
			}
		}
		switch v := v.(type) {
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a := inv(v.Call.Args[0]); a != nil && a.sort == SSlice {
					return c.App("s-len", a)
				}
			}
		case *ssa.BinOp:
			a, b := inv(v.X), inv(v.Y)
			if a != nil && b != nil && a.sort == SInt {
				switch v.Op {
				case token.ADD:
					return c.Add(a, b)
				case token.SUB:
					return c.Sub(a, b)
				}
			}
		case *ssa.Convert:
			if a := inv(v.X); a != nil && a.sort == SInt && x.sortOf(v.Type()) == SInt {
				return a
			}
		}
		return nil
	}
	// linear form of a loop value over one phi
	var phiOf func(v ssa.Value) (int, bool)
	phiOf = func(v ssa.Value) (int, bool) {
		if i, ok := phiIdx[v]; ok {
			return i, true
		}
		switch v := v.(type) {
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB {
				if _, ok := v.Y.(*ssa.Const); ok {
					return phiOf(v.X)
				}
			}
		case *ssa.Convert:
			return phiOf(v.X)
		}
		return 0, false
	}
	dup := map[string]bool{}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				i, ok := phiOf(pr[0])
				if !ok || x.sortOf(phis[i].Type()) != SInt {
					continue
				}
				if _, ok := entry.phis[i].(*Term); !ok {
					continue
				}
				bd := inv(pr[1])
				if bd == nil || bd.sort != SInt {
					continue
				}
				key := fmt.Sprintf("%d %d", i, bd.id)
				if dup[key] {
					continue
				}
				dup[key] = true
				p := func(v loopView) *Term { return x.term(v.st, v.phis[i]) }
				nm := phis[i].Comment
				add(nm+" <= bound", false, func(v loopView) *Term { return c.Le(p(v), bd) })
				add(nm+" < bound", false, func(v loopView) *Term { return c.Lt(p(v), bd) })
				add(nm+" >= bound", false, func(v loopView) *Term { return c.Le(bd, p(v)) })
				add(nm+" >= bound-1", false, func(v loopView) *Term { return c.Le(bd, c.Add(p(v), c.Int(1))) })
			}
		}
	}
	for _, it := range iters {
		it := it
		add("visited keys are in the map", false, func(v loopView) *Term {
			dom, _, _ := x.mapView(v.st, it.m, it.mt)
			k := c.Var("k", x.sortOf(it.mt.Key()))
			vis := c.Select(v.st.cells[it.id].(*Term), k)
			return c.Forall([]*Term{k}, c.Imp(vis, c.Select(dom, k)), []*Term{vis})
		})
	}
	// templates
	for _, tm := range x.ct.Invs {
		names := tm.Holes
		asg := map[string]hole{}
		var rec func(k int)
		rec = func(k int) {
			if len(out) > 400 {
				return
			}
			if k == len(names) {
				cp := map[string]hole{}
				desc := tm.Text
				for n, h := range asg {
					cp[n] = h
					desc += " [" + n + ":=" + h.name + "]"
				}
				add(desc, true, func(v loopView) *Term {
					env := map[string]SVal{}
					for n, s := range x.specEnv() {
						env[n] = s
					}
					for n, h := range cp {
						var val Val = h.get(v)
						if h.typ != nil {
							val = x.lift(val.(*Term), h.typ)
						}
						env[n] = SVal{val, h.typ}
						var ev Val = h.get(entry)
						if h.typ != nil {
							ev = x.lift(ev.(*Term), h.typ)
						}
						env["entry:"+n] = SVal{ev, h.typ}
					}
					return x.evalSpecLoop(v.st, entry.st, env, tm.Expr)
				})
				return
			}
			n := names[k]
			want := n[1]
			for _, h := range holes {
				hk := h.kind
				ok := hk == want
				switch want {
				case 'j', 'k', 'n':
					ok = hk == 'i'
				case 'x':
					ok = true
				}
				if !ok {
					continue
				}
				used := false
				for _, o := range asg {
					if o.name == h.name {
						used = true
					}
				}
				if used {
					continue
				}
				asg[n] = h
				rec(k + 1)
				delete(asg, n)
			}
		}
		rec(0)
	}
	return
}
