package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation
type Obligation struct {
	Name   string
	Fn     string
	Kind   string
	Pos    string
	pc     []*Term
	goal   *Term
	Trace  []string
	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Detail string
	Model  []string
}

// Exec verifies one function
type Exec struct {
	w         *World
	c         *Ctx
	ct        *Contract
	fn        *ssa.Function
	sol       *Session
	compSort  map[string]Sort
	compOrd   []string
	strs      map[*Term]string
	tags      map[string]int
	tagTypes  map[int]types.Type
	toks      map[string]*Term
	tokVal    map[*Term]Val
	canonAx   map[*Term]bool
	canon     map[*Term]int64
	ncell     int
	nclo      int
	nsub      int
	work      []*State
	obls      *[]*Obligation
	mute      int
	paths     int
	maxPaths  int
	used      map[string]bool // contracts and models used
	trusted   map[string]bool
	inlined   map[string]bool
	dropped   map[string]bool // loop candidates dropped
	invs      map[string]bool // loop invariants kept
	ends      int
	panics    int
	covers    []*State
	resVals   [][]Val
	specDepth int
	hints     map[string]bool
	steps     int
	cellName  map[int]string
	cellType  map[int]types.Type
	pmemo     map[string]bool
	preState  *State
	env0      map[string]SVal
	next0     *Term
	gset      map[string]bool
	guards    []*guard
	gvals     map[string]*Term // values of constant globals
}

type pathStop struct{}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.fset.Position(p)
	return strings.TrimPrefix(q.Filename, "/repo/") + ":" + fmt.Sprint(q.Line)
}

func (x *Exec) curPos(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.block == nil {
			continue
		}
		for k := f.idx; k >= 0 && k < len(f.block.Instrs); k-- {
			if p := f.block.Instrs[k].Pos(); p.IsValid() {
				return x.posOf(p)
			}
		}
		if f.fn.Pos().IsValid() {
			return x.posOf(f.fn.Pos())
		}
	}
	return ""
}

// oblige records an obligation
func (x *Exec) oblige(st *State, kind, name string, goal *Term) {
	if x.mute > 0 {
		return
	}
	o := &Obligation{Fn: x.ct.Name, Kind: kind, Name: x.ct.Name + "/" + name, Pos: x.curPos(st), goal: goal,
		pc: append([]*Term(nil), st.pc...), Trace: append([]string(nil), st.trace...)}
	*x.obls = append(*x.obls, o)
}

// safety: a run-time panic condition. The obligation is that cond holds; then
// it is assumed.
func (x *Exec) safety(st *State, what string, cond *Term) {
	if x.c.isTrue(cond) {
		return
	}
	fr := st.top()
	name := what + "@" + shortFn(fr.fn)
	if x.ct.PanicsOK {
		x.assume(st, cond)
		return
	}
	if x.c.isFalse(cond) {
		x.oblige(st, "safety", name, cond)
		panic(pathStop{})
	}
	// quick proof with the incremental solver
	if x.sol.entails(x, st, cond) {
		if x.mute == 0 {
			*x.obls = append(*x.obls, &Obligation{Fn: x.ct.Name, Kind: "safety", Name: x.ct.Name + "/" + name, Pos: x.curPos(st), Status: "proved", Solver: x.sol.name})
		}
		x.assume(st, cond)
		return
	}
	x.oblige(st, "safety", name, cond)
	x.assume(st, cond)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, repoPrefix+"/", "")
	return s
}

// run executes a state until it ends, forks, or meets a loop
func (x *Exec) run(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathStop); ok {
				return
			}
			panic(r)
		}
	}()
	for {
		x.steps++
		if x.steps > 3000000 {
			panic(unsup("too many steps"))
		}
		if len(st.frames) == 0 {
			return
		}
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			panic("end of block")
		}
		in := fr.block.Instrs[fr.idx]
		if !x.step(st, fr, in) {
			return
		}
	}
}

func (x *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) bool {
	from := fr.block
	// the innermost loop being explored
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.depth != len(st.frames) {
			break
		}
		if to == l.header {
			fr.prev = from
			fr.block = to
			fr.idx = 0
			*l.back = append(*l.back, st)
			return false
		}
		if !l.body[to] {
			fr.prev = from
			fr.block = to
			fr.idx = -1 // marks: jump pending
			*l.exits = append(*l.exits, st)
			return false
		}
		break
	}
	if body := x.w.loopOf(fr.fn, to); body != nil && !body[from] {
		fr.prev = from
		fr.block = to
		fr.idx = 0
		x.enterLoop(st, fr, to, body)
		return false
	}
	x.gotoBlock(st, fr, from, to)
	return true
}

func (x *Exec) gotoBlock(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	var pi int = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(st, fr, phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	fr.prev = from
	fr.block = to
	fr.idx = n
}

func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &ClosureV{fn: v}
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsup("undefined ssa value %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	name := "G:" + strings.TrimPrefix(g.String(), repoPrefix+"/")
	if _, ok := isStruct(elem); ok {
		ref := x.tok("global:"+name, nil)
		delete(x.tokVal, ref)
		return &PtrV{kind: PObj, ref: ref, elem: elem}
	}
	if _, ok := x.compSort[name]; !ok {
		x.compSort[name] = arr(SInt, x.sortOf(elem))
		x.compOrd = append(x.compOrd, name)
	}
	if !x.gset[name] {
		x.gset[name] = true
		if v, ok := x.constGlobal(g); ok {
			x.gvals[name] = v
		}
	}
	return &PtrV{kind: PLoc, ref: x.c.Int(0), comp: name, elem: elem}
}

// errGlobal returns the value of an error variable, which is never reassigned
func (x *Exec) errGlobal(name string) *Term {
	id, ok := x.w.errID(name)
	_ = ok
	x.trusted["package-level error variables are distinct, non-nil and never reassigned"] = true
	return x.c.App("mk-iface", x.typeTag(errStringType), x.c.Int(-100000000-int64(id)))
}

var errStringType types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		z := x.zero(t)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return x.lift(z, t)
		}
		return z
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(k.Value))
	case constant.String:
		return x.strLit(constant.StringVal(k.Value))
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if f, exact := constant.Float64Val(k.Value); !exact {
				return x.realConst(constant.MakeFloat64(f))
			}
			return x.realConst(k.Value)
		}
		v := constant.ToInt(k.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsup("constant %s", k))
		}
		return x.c.Big(n)
	}
	panic(unsup("constant %s", k))
}

func (x *Exec) realConst(v constant.Value) *Term {
	n, _ := new(big.Int).SetString(constant.Num(v).ExactString(), 10)
	d, _ := new(big.Int).SetString(constant.Denom(v).ExactString(), 10)
	if n == nil || d == nil {
		panic(unsup("real constant"))
	}
	s := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + s + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return x.c.Real(s)
}

// fork: continues st with cond, and pushes the other branch
func (x *Exec) branch(st *State, cond *Term) (yes, no bool) {
	if x.c.isTrue(cond) {
		return true, false
	}
	if x.c.isFalse(cond) {
		return false, true
	}
	yes = !x.sol.entails(x, st, x.c.Not(cond))
	if !yes {
		return false, true
	}
	no = !x.sol.entails(x, st, cond)
	return
}

func (x *Exec) setVal(fr *Frame, v ssa.Value, val Val) { fr.env[v] = val }

func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) (cont bool) {
	c := x.c
	T := func(v ssa.Value) *Term { return x.term(st, x.get(st, fr, v)) }
	fr.idx++
	if len(x.guards) > 0 {
		x.accessStep(st, fr, in)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		return x.jump(st, fr, fr.block.Succs[0])
	case *ssa.If:
		cond := T(in.Cond)
		yes, no := x.branch(st, cond)
		var other *State
		if yes && no {
			other = st.clone()
			x.paths++
			if x.paths > x.maxPaths {
				panic(unsup("more than %d paths", x.maxPaths))
			}
		}
		t, f := fr.block.Succs[0], fr.block.Succs[1]
		if other != nil {
			x.assume(other, c.Not(cond))
			x.assume(st, cond)
			p := x.posOf(in.Cond.Pos())
			if p != "" {
				st.trace = append(st.trace, p+" true")
				other.trace = append(other.trace, p+" false")
			}
			if x.jump(other, other.top(), f) {
				x.work = append(x.work, other)
			}
			return x.jump(st, fr, t)
		}
		if yes {
			x.assume(st, cond)
			return x.jump(st, fr, t)
		}
		if no {
			x.assume(st, c.Not(cond))
			return x.jump(st, fr, f)
		}
		return false
	case *ssa.Phi:
		panic("phi")
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		fr.env[in] = x.allocVar(st, et, in.Comment)
	case *ssa.Store:
		p := x.asPtr(x.get(st, fr, in.Addr), in.Addr.Type())
		x.nilCheck(st, p)
		x.store(st, p, x.get(st, fr, in.Val))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if p, ok := x.get(st, fr, in.X).(*PtrV); ok {
				if idx, n := x.constIndex(p); n > 0 {
					for k := int64(0); k < n; k++ {
						eq := c.Eq(idx, c.Int(k))
						if yes, _ := x.branch(st, eq); !yes {
							continue
						}
						o := st.clone()
						x.assume(o, eq)
						q := *p
						q.path = append([]pathElem{{idx: c.Int(k), field: p.path[0].field}}, p.path[1:]...)
						o.top().env[in] = x.load(o, &q)
						x.work = append(x.work, o)
						x.paths++
					}
					return false
				}
			}
		}
		fr.env[in] = x.unop(st, fr, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, in.Op, T(in.X), T(in.Y), in.X.Type(), in.Type())
	case *ssa.FieldAddr:
		p := x.asPtr(x.get(st, fr, in.X), in.X.Type())
		x.nilCheck(st, p)
		fr.env[in] = x.fieldPtr(p, in.Field)
	case *ssa.Field:
		if _, ok := isStruct(in.X.Type()); !ok {
			panic(unsup("field of %s", in.X.Type()))
		}
		d := x.structDT(in.X.Type())
		t := c.App(d.fields[in.Field].name, T(in.X))
		x.facts(st, t, in.Type())
		fr.env[in] = x.lift(t, in.Type())
	case *ssa.IndexAddr:
		fr.env[in] = x.indexAddr(st, fr, in)
	case *ssa.Index:
		i := T(in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(u.Len()))))
			t := c.Select(T(in.X), i)
			x.facts(st, t, in.Type())
			fr.env[in] = x.lift(t, in.Type())
		case *types.Basic: // string
			s := T(in.X)
			x.safety(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, x.strLen(s))))
			c.fun("str-at", SInt, SStr, SInt)
			t := c.App("str-at", s, i)
			x.facts(st, t, types.Typ[types.Uint8])
			fr.env[in] = t
		default:
			panic(unsup("index of %s", in.X.Type()))
		}
	case *ssa.Lookup:
		fr.env[in] = x.lookup(st, fr, in)
	case *ssa.MapUpdate:
		x.mapUpdate(st, T(in.Map), in.Map.Type().Underlying().(*types.Map), T(in.Key), x.get(st, fr, in.Value))
	case *ssa.MakeMap:
		fr.env[in] = x.makeMap(st, in.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		ln, cp := T(in.Len), T(in.Cap)
		x.safety(st, "make slice: length in range", c.And(c.Le(c.Int(0), ln), c.Le(ln, cp)))
		fr.env[in] = x.makeSlice(st, in.Type().Underlying().(*types.Slice).Elem(), ln, cp)
	case *ssa.MakeChan:
		r := x.alloc(st)
		fr.env[in] = r
	case *ssa.MakeClosure:
		cl := &ClosureV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.bindings = append(cl.bindings, x.get(st, fr, b))
		}
		fr.env[in] = cl
	case *ssa.MakeInterface:
		fr.env[in] = x.mkIface(st, x.get(st, fr, in.X), in.X.Type())
	case *ssa.ChangeInterface:
		fr.env[in] = x.get(st, fr, in.X)
	case *ssa.ChangeType:
		v := x.get(st, fr, in.X)
		if p, ok := v.(*PtrV); ok {
			q := *p
			q.elem = in.Type().Underlying().(*types.Pointer).Elem()
			if q.kind == PObj {
				if tname(p.elem) != tname(q.elem) {
					panic(unsup("pointer conversion %s to %s", p.elem, q.elem))
				}
			}
			v = &q
		} else if t, ok := v.(*Term); ok {
			// struct conversion between distinct named types
			if s := x.sortOf(in.Type()); s != t.sort {
				v = x.convStruct(t, in.X.Type(), in.Type())
			}
		}
		fr.env[in] = v
	case *ssa.Convert:
		fr.env[in] = x.convert(st, T(in.X), in.X.Type(), in.Type())
	case *ssa.Slice:
		fr.env[in] = x.slice(st, fr, in)
	case *ssa.Extract:
		fr.env[in] = x.get(st, fr, in.Tuple).(TupleV)[in.Index]
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, in)
	case *ssa.Range:
		x.rangeStart(st, fr, in)
	case *ssa.Next:
		return x.rangeNext(st, fr, in)
	case *ssa.Defer:
		d := deferred{instr: in}
		d.fn, d.args = x.callee(st, fr, &in.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.idx-- // again
			return x.doCall(st, &d.instr.Call, d.fn, d.args, d.instr, func(*State, []Val) {})
		}
	case *ssa.Go:
		x.trusted["goroutines started by the verified functions are not analysed (sequential reasoning)"] = true
	case *ssa.Call:
		fn, args := x.callee(st, fr, &in.Call)
		return x.doCall(st, &in.Call, fn, args, in, func(st *State, res []Val) {
			x.bindRes(st.top(), in, res)
		})
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, x.get(st, fr, r))
		}
		return x.doReturn(st, res)
	case *ssa.Panic:
		if !x.ct.PanicsOK {
			x.oblige(st, "safety", "no explicit panic@"+shortFn(fr.fn), c.Bool(false))
		}
		x.panics++
		return false
	case *ssa.Send:
		x.modelChan(st, fr, in)
	case *ssa.Select:
		return x.selectStmt(st, fr, in)
	default:
		panic(unsup("instruction %T", in))
	}
	return true
}

func (x *Exec) bindRes(fr *Frame, in *ssa.Call, res []Val) {
	switch len(res) {
	case 0:
		fr.env[in] = TupleV{}
	case 1:
		if _, ok := in.Type().(*types.Tuple); ok {
			fr.env[in] = TupleV(res)
		} else {
			fr.env[in] = res[0]
		}
	default:
		fr.env[in] = TupleV(res)
	}
}

func (x *Exec) doReturn(st *State, res []Val) bool {
	fr := st.top()
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == len(st.frames) {
		panic(unsup("return inside of a loop body"))
	}
	st.frames = st.frames[:len(st.frames)-1]
	fr.onRet(st, res)
	return len(st.frames) > 0
}

func (x *Exec) allocVar(st *State, et types.Type, comment string) Val {
	if _, ok := isStruct(et); ok {
		ref := x.alloc(st)
		p := &PtrV{kind: PObj, ref: ref, elem: et}
		x.store(st, p, x.zero(et))
		return p
	}
	if a, ok := et.Underlying().(*types.Array); ok {
		ref := x.alloc(st)
		n, srt := x.elemComp(a.Elem())
		h := x.comp(st, n, srt)
		z := x.zero(et)
		x.canon[z] = a.Len()
		x.setComp(st, n, ref, x.c.Store(h, ref, z))
		return &PtrV{kind: PArr, ref: ref, comp: n, elem: et}
	}
	id := x.newCell(st, x.lift(x.zero(et), et))
	x.cellName[id] = comment
	x.cellType[id] = et
	return &PtrV{kind: PCell, cell: id, elem: et}
}

func (x *Exec) asPtr(v Val, t types.Type) *PtrV {
	switch v := v.(type) {
	case *PtrV:
		return v
	case *Term:
		l := x.lift(v, t)
		if p, ok := l.(*PtrV); ok {
			return p
		}
	}
	panic(unsup("pointer value %T", v))
}

func (x *Exec) nilCheck(st *State, p *PtrV) {
	if p.ref != nil && strings.HasPrefix(p.ref.op, "sub.") {
		return
	}
	if p.kind == PObj || p.kind == PArr || p.kind == PLoc && strings.HasPrefix(p.comp, "C:") {
		x.safety(st, "nil dereference", x.c.Neq(p.ref, x.c.Int(0)))
	}
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	c := x.c
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			et := g.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(et, types.Universe.Lookup("error").Type()) {
				return x.errGlobal(g.String())
			}
		}
		p := x.asPtr(x.get(st, fr, in.X), in.X.Type())
		x.nilCheck(st, p)
		return x.load(st, p)
	case token.NOT:
		return c.Not(x.term(st, x.get(st, fr, in.X)))
	case token.SUB:
		t := x.term(st, x.get(st, fr, in.X))
		if t.sort == SReal {
			return c.Sub(c.Real("0.0"), t)
		}
		return x.wrap(st, c.Sub(c.Int(0), t), in.Type())
	case token.XOR:
		t := x.term(st, x.get(st, fr, in.X))
		b := in.Type().Underlying().(*types.Basic)
		bits, signed := intBits(b)
		if signed {
			return c.Sub(c.Int(-1), t)
		}
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		return c.Sub(c.Big(m), t)
	case token.ARROW:
		return x.recv(st, fr, in)
	}
	panic(unsup("unary %s", in.Op))
}

// wrap reduces a mathematical integer to the machine integer type
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	c := x.c
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	if t.num != nil {
		if t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
			return t
		}
		size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		v := new(big.Int).Sub(t.num, lo)
		v.Mod(v, size)
		return c.Big(v.Add(v, lo))
	}
	in := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	if x.sol.entails(x, st, in) {
		return t
	}
	size := c.Big(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	r := c.Add(c.Mod(c.Sub(t, c.Big(lo)), size), c.Big(lo))
	// give the solver the common cases
	w := c.Fresh("wrap", SInt)
	x.assume(st, c.Eq(w, r))
	x.assume(st, c.Imp(in, c.Eq(w, t)))
	x.assume(st, c.And(c.Le(c.Big(lo), w), c.Le(w, c.Big(hi))))
	return w
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, at types.Type, rt types.Type) Val {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		r := x.eq(st, a, b, at)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	if a.sort == SStr {
		switch op {
		case token.ADD:
			return x.strCat(st, a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c.fun("str-rank", SReal, SStr)
			ra, rb := c.App("str-rank", a), c.App("str-rank", b)
			x.strRankAxiom()
			switch op {
			case token.LSS:
				return c.Lt(ra, rb)
			case token.LEQ:
				return c.Le(ra, rb)
			case token.GTR:
				return c.Lt(rb, ra)
			}
			return c.Le(rb, ra)
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	case token.ADD:
		if a.sort == SReal {
			x.floatNote()
			return c.Add(a, b)
		}
		return x.wrap(st, c.Add(a, b), rt)
	case token.SUB:
		if a.sort == SReal {
			x.floatNote()
			return c.Sub(a, b)
		}
		return x.wrap(st, c.Sub(a, b), rt)
	case token.MUL:
		if a.sort == SReal {
			x.floatNote()
			return c.Mul(a, b)
		}
		return x.wrap(st, c.Mul(a, b), rt)
	case token.QUO:
		if a.sort == SReal {
			x.floatNote()
			return c.mk(Term{op: "/", args: []*Term{a, b}, sort: SReal})
		}
		x.safety(st, "division by zero", c.Neq(b, c.Int(0)))
		return x.wrap(st, x.quo(st, a, b), rt)
	case token.REM:
		x.safety(st, "division by zero", c.Neq(b, c.Int(0)))
		return c.Sub(a, c.Mul(b, x.quo(st, a, b)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.sort == SBool {
			switch op {
			case token.AND:
				return c.And(a, b)
			case token.OR:
				return c.Or(a, b)
			}
		}
		return x.bitop(op, a, b, rt)
	case token.SHL:
		if b.num != nil {
			n := b.num.Int64()
			if n > 64 {
				return c.Int(0)
			}
			return x.wrap(st, c.Mul(a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(n)))), rt)
		}
		return x.bitfun("shl", a, b, rt)
	case token.SHR:
		if b.num != nil {
			n := b.num.Int64()
			if n > 64 {
				n = 64
			}
			return c.Div(a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		}
		return x.bitfun("shr", a, b, rt)
	}
	panic(unsup("binary %s", op))
}

func (x *Exec) floatNote() {
	x.trusted["floating point arithmetic is treated as real arithmetic"] = true
}

func (x *Exec) bitfun(f string, a, b *Term, t types.Type) *Term {
	n := "bit." + f + "." + sanitize(tname(t))
	x.c.fun(n, SInt, SInt, SInt)
	r := x.c.App(n, a, b)
	return r
}

// bitwise operations through bit vectors
func (x *Exec) bitop(op token.Token, a, b *Term, t types.Type) *Term {
	c := x.c
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsup("bit operation on %s", t))
	}
	bits, signed := intBits(bt)
	if a.num != nil && b.num != nil && a.num.Sign() >= 0 && b.num.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.num, b.num)
		case token.OR:
			r.Or(a.num, b.num)
		case token.XOR:
			r.Xor(a.num, b.num)
		case token.AND_NOT:
			r.AndNot(a.num, b.num)
		}
		return c.Big(r)
	}
	if op == token.AND {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].num != nil {
				if p[0].num.Sign() == 0 {
					return p[0]
				}
				// mask of low bits
				m := new(big.Int).Add(p[0].num, big.NewInt(1))
				if p[0].num.Sign() > 0 && m.TrailingZeroBits() == uint(m.BitLen()-1) && !signed {
					return c.Mod(p[1], c.Big(m))
				}
			}
		}
	}
	if signed {
		return x.bitfun(op.String(), a, b, t)
	}
	bv := fmt.Sprintf("(_ BitVec %d)", bits)
	i2b := fmt.Sprintf("(_ int2bv %d)", bits)
	f := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.AND_NOT: "bvandnot"}[op]
	n := fmt.Sprintf("%s.%d", f, bits)
	if _, ok := c.funs[n]; !ok {
		body := fmt.Sprintf("(bv2nat (%s (%s a) (%s b)))", f, i2b, i2b)
		if op == token.AND_NOT {
			body = fmt.Sprintf("(bv2nat (bvand (%s a) (bvnot (%s b))))", i2b, i2b)
		}
		c.funs[n] = &FunDecl{name: n, ret: SInt, args: []Sort{SInt, SInt}, def: fmt.Sprintf("(define-fun %s ((a Int) (b Int)) Int %s)", n, body)}
	}
	_ = bv
	return c.App(n, a, b)
}

// quo is Go's truncated division
func (x *Exec) quo(st *State, a, b *Term) *Term {
	c := x.c
	if x.sol.entails(x, st, c.And(c.Le(c.Int(0), a), c.Lt(c.Int(0), b))) {
		return c.Div(a, b)
	}
	na, nb := c.Sub(c.Int(0), a), c.Sub(c.Int(0), b)
	return c.Ite(c.Le(c.Int(0), a),
		c.Ite(c.Lt(c.Int(0), b), c.Div(a, b), c.Sub(c.Int(0), c.Div(a, nb))),
		c.Ite(c.Lt(c.Int(0), b), c.Sub(c.Int(0), c.Div(na, b)), c.Div(na, nb)))
}

func (x *Exec) eq(st *State, a, b *Term, t types.Type) *Term {
	if a.sort == SSlice {
		// comparison with nil
		z := x.nilSlice()
		if a == z {
			a, b = b, a
		}
		if b == z {
			return x.c.Eq(x.c.App("s-ref", a), x.c.Int(0))
		}
	}
	if a.sort == SIface && b.sort != SIface || b.sort == SIface && a.sort != SIface {
		panic(unsup("mixed interface comparison"))
	}
	return x.c.Eq(a, b)
}

func (x *Exec) strLen(s *Term) *Term {
	c := x.c
	if v, ok := x.strs[s]; ok {
		return c.Int(int64(len(v)))
	}
	c.fun("str-len", SInt, SStr)
	return c.App("str-len", s)
}

func (x *Exec) strCat(st *State, a, b *Term) *Term {
	c := x.c
	// concatenations are kept flat: literals merged, nested to the right
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "str-cat" {
			flat(t.args[0])
			flat(t.args[1])
			return
		}
		if v, ok := x.strs[t]; ok {
			if v == "" {
				return
			}
			if n := len(parts); n > 0 {
				if u, ok := x.strs[parts[n-1]]; ok {
					parts[n-1] = x.strLit(u + v)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	flat(a)
	flat(b)
	if len(parts) == 0 {
		return x.strLit("")
	}
	c.fun("str-cat", SStr, SStr, SStr)
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		n := c.App("str-cat", parts[i], r)
		x.assume(st, c.Eq(x.strLen(n), c.Add(x.strLen(parts[i]), x.strLen(r))))
		r = n
	}
	return r
}

func (x *Exec) strRankAxiom() {
	c := x.c
	for _, a := range c.axioms {
		if a.note == "string order is injective" {
			return
		}
	}
	v := c.Var("s", SStr)
	c.fun("str-unrank", SStr, SReal)
	c.axioms = append(c.axioms, &Axiom{trig: []string{"str-rank"}, note: "string order is injective",
		term: c.Forall([]*Term{v}, c.Eq(c.App("str-unrank", c.App("str-rank", v)), v), []*Term{c.App("str-rank", v)})})
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	c := x.c
	i := x.term(st, x.get(st, fr, in.Index))
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(st, x.get(st, fr, in.X))
		x.safety(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.App("s-len", s))))
		n, srt := x.elemComp(u.Elem())
		x.comp(st, n, srt)
		return &PtrV{kind: PElem, comp: n, ref: c.App("s-ref", s), idx: c.Add(c.App("s-off", s), i), elem: u.Elem()}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		x.safety(st, "index in range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(a.Len()))))
		p := x.asPtr(x.get(st, fr, in.X), in.X.Type())
		x.nilCheck(st, p)
		if p.kind == PArr && len(p.path) == 0 {
			n, srt := x.elemComp(a.Elem())
			x.comp(st, n, srt)
			return &PtrV{kind: PElem, comp: n, ref: p.ref, idx: i, elem: a.Elem()}
		}
		q := *p
		q.path = append(append([]pathElem(nil), p.path...), pathElem{idx: i, field: "[]"})
		q.elem = a.Elem()
		return &q
	}
	panic(unsup("index address of %s", in.X.Type()))
}

func (x *Exec) makeMap(st *State, m *types.Map) *Term {
	c := x.c
	r := x.alloc(st)
	d, v, l, ks, vs := x.mapComps(m)
	ds, vsrt := arr(SInt, arr(ks, SBool)), arr(SInt, arr(ks, vs))
	x.setComp(st, d, r, c.Store(x.comp(st, d, ds), r, c.ConstArr(arr(ks, SBool), c.Bool(false))))
	x.setComp(st, v, r, c.Store(x.comp(st, v, vsrt), r, c.ConstArr(arr(ks, vs), x.zero(m.Elem()))))
	x.setComp(st, l, r, c.Store(x.comp(st, l, arr(SInt, SInt)), r, c.Int(0)))
	return r
}

// mapView returns the domain, values and length of a map
func (x *Exec) mapView(st *State, r *Term, m *types.Map) (dom, val, ln *Term) {
	c := x.c
	d, v, l, ks, vs := x.mapComps(m)
	dom = c.Select(x.comp(st, d, arr(SInt, arr(ks, SBool))), r)
	val = c.Select(x.comp(st, v, arr(SInt, arr(ks, vs))), r)
	ln = c.Select(x.comp(st, l, arr(SInt, SInt)), r)
	return
}

func (x *Exec) mapHas(st *State, r *Term, m *types.Map, k *Term) *Term {
	c := x.c
	dom, _, ln := x.mapView(st, r, m)
	has := c.Select(dom, k)
	if !has.bound {
		x.lenFacts(st, ln)
		if r.num != nil && r.num.Sign() == 0 {
			return c.Bool(false)
		}
		x.assume(st, c.Imp(has, c.And(c.Neq(r, c.Int(0)), c.Lt(c.Int(0), ln))))
	}
	return has
}

func (x *Exec) lenFacts(st *State, ln *Term) {
	x.assume(st, x.c.And(x.c.Le(x.c.Int(0), ln), x.c.Le(ln, x.c.Big(maxInt64))))
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) Val {
	c := x.c
	m := x.term(st, x.get(st, fr, in.X))
	k := x.term(st, x.get(st, fr, in.Index))
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index
		x.safety(st, "index in range", c.And(c.Le(c.Int(0), k), c.Lt(k, x.strLen(m))))
		c.fun("str-at", SInt, SStr, SInt)
		t := c.App("str-at", m, k)
		x.facts(st, t, types.Typ[types.Uint8])
		return t
	}
	has := x.mapHas(st, m, mt, k)
	_, val, _ := x.mapView(st, m, mt)
	raw := c.Select(val, k)
	x.facts(st, raw, mt.Elem())
	z := x.zero(mt.Elem())
	v := c.Ite(has, raw, z)
	if v.op == "ite" {
		// name the value: less duplication, and pointers stay simple
		if x.sol.entails(x, st, has) {
			v = raw
		} else if x.sol.entails(x, st, c.Not(has)) {
			v = z
		}
	}
	if in.CommaOk {
		return TupleV{x.lift(v, mt.Elem()), has}
	}
	return x.lift(v, mt.Elem())
}

func (x *Exec) mapUpdate(st *State, r *Term, mt *types.Map, k *Term, v Val) {
	c := x.c
	x.safety(st, "assignment to a nil map", c.Neq(r, c.Int(0)))
	dom, val, ln := x.mapView(st, r, mt)
	d, vv, l, _, _ := x.mapComps(mt)
	has := x.mapHas(st, r, mt, k)
	x.lenFacts(st, ln)
	x.setComp(st, d, r, c.Store(st.heap[d], r, c.Store(dom, k, c.Bool(true))))
	x.setComp(st, vv, r, c.Store(st.heap[vv], r, c.Store(val, k, x.term(st, v))))
	x.setComp(st, l, r, c.Store(st.heap[l], r, c.Ite(has, ln, c.Add(ln, c.Int(1)))))
}

func (x *Exec) mapDelete(st *State, r *Term, mt *types.Map, k *Term) {
	c := x.c
	dom, _, ln := x.mapView(st, r, mt)
	d, _, l, _, _ := x.mapComps(mt)
	has := x.mapHas(st, r, mt, k)
	x.lenFacts(st, ln)
	x.setComp(st, d, r, c.Store(st.heap[d], r, c.Store(dom, k, c.Bool(false))))
	x.setComp(st, l, r, c.Store(st.heap[l], r, c.Ite(has, c.Sub(ln, c.Int(1)), ln)))
}

func (x *Exec) makeSlice(st *State, el types.Type, ln, cp *Term) *Term {
	c := x.c
	r := x.alloc(st)
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	x.setComp(st, n, r, c.Store(h, r, c.ConstArr(arr(SInt, x.sortOf(el)), x.zero(el))))
	return c.App("mk-slice", r, c.Int(0), ln, cp)
}

// newBytes makes a fresh slice with the given contents
func (x *Exec) newBytes(st *State, bs *Term) *Term {
	x.canonBytes(bs)
	return x.sliceFrom(st, types.Typ[types.Uint8], x.c.App("bs-data", bs), x.c.App("bs-len", bs))
}

// canonBytes says, for a place where it is met through a store, that contents
// obtained as a value have nothing beyond their length
func (x *Exec) canonBytes(bs *Term) {
	c := x.c
	if bs.bound || bs.op == "ite" || bs.op == "mk-bs" || x.canonAx[bs] {
		return
	}
	x.canonAx[bs] = true
	f := "shift.Int"
	x.shift(c.Sym("shift.a", arr(SInt, SInt)), c.Sym("shift.o", SInt), c.Sym("shift.n", SInt)) // declares it
	d := c.App("bs-data", bs)
	c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: "contents have nothing beyond their length", term: c.Eq(c.App(f, d, c.Int(0), c.App("bs-len", bs)), d)})
}

func (x *Exec) sliceFrom(st *State, el types.Type, data, ln *Term) *Term {
	c := x.c
	r := x.alloc(st)
	n, srt := x.elemComp(el)
	h := x.comp(st, n, srt)
	x.setComp(st, n, r, c.Store(h, r, data))
	return c.App("mk-slice", r, c.Int(0), ln, ln)
}

func (x *Exec) mkIface(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return &IfaceV{t, v}
}

func (x *Exec) convStruct(t *Term, from, to types.Type) *Term {
	fs, ok1 := isStruct(from)
	_, ok2 := isStruct(to)
	if !ok1 || !ok2 {
		panic(unsup("conversion %s to %s", from, to))
	}
	fd, td := x.structDT(from), x.structDT(to)
	var as []*Term
	for i := 0; i < fs.NumFields(); i++ {
		a := x.c.App(fd.fields[i].name, t)
		if td.fields[i].sort != a.sort {
			a = x.convStruct(a, fs.Field(i).Type(), to.Underlying().(*types.Struct).Field(i).Type())
		}
		as = append(as, a)
	}
	return x.c.App2(td.ctor, as)
}

func (x *Exec) convert(st *State, t *Term, from, to types.Type) Val {
	c := x.c
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x.wrap(st, t, to)
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		x.floatNote()
		if t.num != nil {
			return c.Real(lit(t) + ".0")
		}
		return c.mk(Term{op: "to_real", args: []*Term{t}, sort: SReal})
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return t
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		// truncation toward zero
		x.floatNote()
		fl := func(r *Term) *Term { return c.mk(Term{op: "to_int", args: []*Term{r}, sort: SInt}) }
		z := c.Real("0.0")
		return x.wrap(st, c.Ite(c.Le(z, t), fl(t), c.Sub(c.Int(0), fl(c.Sub(z, t)))), to)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return t
	}
	if tok && tb.Info()&types.IsString != 0 {
		if _, ok := from.Underlying().(*types.Slice); ok {
			c.fun("str-of", SStr, SBS)
			bs := x.bytesOf(st, t)
			s := c.App("str-of", bs)
			x.strBytesAxiom()
			return s
		}
		if fok && fb.Info()&types.IsInteger != 0 {
			c.fun("str-rune", SStr, SInt)
			return c.App("str-rune", t)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if _, ok := to.Underlying().(*types.Slice); ok {
			x.strBytesAxiom()
			bs := c.App("bytes-of-str", t)
			if v, ok := x.strs[t]; ok {
				a := c.ConstArr(arr(SInt, SInt), c.Int(0))
				for i := 0; i < len(v); i++ {
					a = c.Store(a, c.Int(int64(i)), c.Int(int64(v[i])))
				}
				bs = c.App("mk-bs", c.Int(int64(len(v))), a)
			}
			r := x.newBytes(st, bs)
			x.assume(st, c.Eq(c.App("s-len", r), x.strLen(t)))
			return r
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return t
	}
	panic(unsup("conversion %s to %s", from, to))
}

func (x *Exec) strBytesAxiom() {
	c := x.c
	if _, ok := c.funs["bytes-of-str"]; ok {
		return
	}
	c.fun("bytes-of-str", SBS, SStr)
	c.fun("str-of", SStr, SBS)
	s, b := c.Var("s", SStr), c.Var("b", SBS)
	c.fun("str-len", SInt, SStr)
	c.axioms = append(c.axioms,
		&Axiom{trig: []string{"bytes-of-str"}, note: "string/bytes conversion", term: c.Forall([]*Term{s},
			c.And(c.Eq(c.App("str-of", c.App("bytes-of-str", s)), s), c.Eq(c.App("bs-len", c.App("bytes-of-str", s)), c.App("str-len", s)),
				c.Le(c.Int(0), c.App("str-len", s))), []*Term{c.App("bytes-of-str", s)})},
		&Axiom{trig: []string{"str-of"}, note: "string/bytes conversion", term: c.Forall([]*Term{b},
			c.And(c.Eq(c.App("bytes-of-str", c.App("str-of", b)), b), c.Eq(c.App("str-len", c.App("str-of", b)), c.App("bs-len", b))), []*Term{c.App("str-of", b)})})
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	c := x.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(st, x.get(st, fr, v))
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	var ref, off, ln, cp *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := get(in.X)
		ref, off, ln, cp = c.App("s-ref", s), c.App("s-off", s), c.App("s-len", s), c.App("s-cap", s)
	case *types.Basic:
		s := get(in.X)
		if hi == nil {
			hi = x.strLen(s)
		}
		x.safety(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, x.strLen(s))))
		if lo.num != nil && lo.num.Sign() == 0 && hi == x.strLen(s) {
			return s
		}
		c.fun("str-sub", SStr, SStr, SInt, SInt)
		r := c.App("str-sub", s, lo, hi)
		x.assume(st, c.Eq(x.strLen(r), c.Sub(hi, lo)))
		return r
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := x.asPtr(x.get(st, fr, in.X), in.X.Type())
		x.nilCheck(st, p)
		n := c.Int(a.Len())
		ln, cp, off = n, n, c.Int(0)
		if p.kind == PArr && len(p.path) == 0 {
			ref = p.ref
			nm, srt := x.elemComp(a.Elem())
			t := c.Select(x.comp(st, nm, srt), ref)
			x.canon[t] = a.Len()
		} else {
			// a snapshot of an array inside of another object: reads only
			x.trusted["slices of array fields are read-only snapshots"] = true
			t := x.term(st, x.load(st, p))
			x.canon[t] = a.Len()
			s := x.sliceFrom(st, a.Elem(), t, n)
			ref = c.App("s-ref", s)
		}
	default:
		panic(unsup("slice of %s", in.X.Type()))
	}
	if hi == nil {
		hi = ln
	}
	if mx == nil {
		mx = cp
		x.safety(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp)))
	} else {
		x.safety(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)))
	}
	return c.App("mk-slice", ref, c.Add(off, lo), c.Sub(hi, lo), c.Sub(mx, lo))
}

// implements reports the assertion result of a dynamic type to type t
func dynImpl(dyn, t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, t)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) bool {
	c := x.c
	v := x.get(st, fr, in.X)
	if t, ok := v.(*Term); ok {
		v = x.lift(t, in.X.Type())
	}
	bind := func(st *State, val Val, ok bool) {
		f := st.top()
		if in.CommaOk {
			f.env[in] = TupleV{val, c.Bool(ok)}
		} else {
			f.env[in] = val
		}
	}
	zero := func() Val { return x.lift(x.zero(in.AssertedType), in.AssertedType) }
	if iv, ok := v.(*IfaceV); ok {
		if dynImpl(iv.typ, in.AssertedType) {
			if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
				bind(st, iv, true)
			} else {
				bind(st, iv.val, true)
			}
			return true
		}
		if !in.CommaOk {
			x.safety(st, "type assertion", c.Bool(false))
		}
		bind(st, zero(), false)
		return true
	}
	t := v.(*Term)
	var cond *Term
	var val func() Val
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		f := "implements." + sanitize(tname(in.AssertedType))
		c.fun(f, SBool, SInt)
		cond = c.And(c.Neq(c.App("i-tag", t), c.Int(0)), c.App(f, c.App("i-tag", t)))
		val = func() Val { return t }
	} else {
		cond = c.Eq(c.App("i-tag", t), x.typeTag(in.AssertedType))
		val = func() Val {
			u := x.unbox(c.App("i-val", t), in.AssertedType)
			return x.lift(u, in.AssertedType)
		}
	}
	if !in.CommaOk {
		x.safety(st, "type assertion", cond)
		r := val()
		if rt, ok := r.(*Term); ok {
			x.facts(st, rt, in.AssertedType)
		}
		bind(st, r, true)
		return true
	}
	yes, no := x.branch(st, cond)
	if yes && no {
		o := st.clone()
		x.assume(o, c.Not(cond))
		bind(o, zero(), false)
		x.work = append(x.work, o)
		x.paths++
	}
	if yes {
		x.assume(st, cond)
		r := val()
		if rt, ok := r.(*Term); ok {
			x.facts(st, rt, in.AssertedType)
		}
		bind(st, r, true)
		return true
	}
	if no {
		bind(st, zero(), false)
		return true
	}
	return false
}

func (x *Exec) rangeStart(st *State, fr *Frame, in *ssa.Range) {
	c := x.c
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsup("range over %s", in.X.Type()))
	}
	m := x.term(st, x.get(st, fr, in.X))
	dom, _, _ := x.mapView(st, m, mt)
	ks := x.sortOf(mt.Key())
	id := x.newCell(st, c.ConstArr(arr(ks, SBool), c.Bool(false)))
	x.cellName[id] = "visited"
	fr.env[in] = &IterV{id: id, m: m, mt: mt, dom0: dom}
}

func (x *Exec) rangeNext(st *State, fr *Frame, in *ssa.Next) bool {
	c := x.c
	it, ok := x.get(st, fr, in.Iter).(*IterV)
	if !ok {
		panic(unsup("iteration over a string"))
	}
	visited := st.cells[it.id].(*Term)
	dom, val, _ := x.mapView(st, it.m, it.mt)
	ks := x.sortOf(it.mt.Key())
	tup := in.Type().(*types.Tuple)
	// end
	o := st.clone()
	k := c.Var("k", ks)
	x.assume(o, c.Forall([]*Term{k}, c.Imp(c.And(c.Select(dom, k), c.Select(it.dom0, k)), c.Select(visited, k)), []*Term{c.Select(dom, k)}, []*Term{c.Select(visited, k)}))
	z := func(t types.Type) Val {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return c.Int(0)
		}
		return x.lift(x.zero(t), t)
	}
	o.top().env[in] = TupleV{c.Bool(false), z(tup.At(1).Type()), z(tup.At(2).Type())}
	x.work = append(x.work, o)
	x.paths++
	// next element
	key := c.Fresh("key", ks)
	x.facts(st, key, it.mt.Key())
	x.assume(st, c.Select(dom, key))
	x.assume(st, c.Not(c.Select(visited, key)))
	st.cells[it.id] = c.Store(visited, key, c.Bool(true))
	st.logWrite(fmt.Sprintf("cell:%d", it.id), nil)
	x.mapHas(st, it.m, it.mt, key)
	v := c.Select(val, key)
	x.facts(st, v, it.mt.Elem())
	fr.env[in] = TupleV{c.Bool(true), x.lift(key, it.mt.Key()), x.lift(v, it.mt.Elem())}
	return true
}

// chanRecord notes a value sent to or received from a channel, under a
// condition (nil: always); kind is "sent" or "received"
func (x *Exec) chanRecord(st *State, kind string, ch, v, cond *Term) {
	c := x.c
	cnt := x.comp(st, "GH:n"+kind, arr(SInt, SInt))
	n := c.Select(cnt, ch)
	nm := "GH:" + kind + ":" + v.sort
	h := x.comp(st, nm, arr(SInt, arr(SInt, v.sort)))
	now := c.Store(c.Select(h, ch), n, v)
	n1 := c.Add(n, c.Int(1))
	if cond != nil {
		n1 = c.Ite(cond, n1, n)
		now = c.Ite(cond, now, c.Select(h, ch))
	}
	x.setComp(st, nm, ch, c.Store(h, ch, now))
	x.setComp(st, "GH:n"+kind, ch, c.Store(cnt, ch, n1))
}

const chanNote = "channels: sends are recorded, receives give arbitrary values, select takes any case whose channel is not nil; a channel blocks no one and sends to closed channels are not excluded"

func (x *Exec) modelChan(st *State, fr *Frame, in *ssa.Send) {
	x.trusted[chanNote] = true
	x.chanRecord(st, "sent", x.term(st, x.get(st, fr, in.Chan)), x.term(st, x.get(st, fr, in.X)), nil)
}

func (x *Exec) recv(st *State, fr *Frame, in *ssa.UnOp) Val {
	x.trusted[chanNote] = true
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	v := x.havocVal(st, "recv", et)
	ch := x.term(st, x.get(st, fr, in.X))
	ok := x.c.Fresh("ok", SBool)
	x.assume(st, x.c.Imp(x.c.Not(ok), x.c.Eq(x.term(st, v), x.zero(et))))
	x.chanRecord(st, "received", ch, x.term(st, v), ok)
	if in.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

func (x *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select) bool {
	x.trusted[chanNote] = true
	c := x.c
	tup := in.Type().(*types.Tuple)
	ok := c.Fresh("recvok", SBool)
	res := TupleV{nil, ok}
	idx := c.Fresh("select", SInt)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	x.assume(st, c.And(c.Le(c.Int(int64(lo)), idx), c.Lt(idx, c.Int(int64(len(in.States))))))
	k := 2
	for i, s := range in.States {
		ch := x.term(st, x.get(st, fr, s.Chan))
		here := c.Eq(idx, c.Int(int64(i)))
		x.assume(st, c.Imp(here, c.Neq(ch, c.Int(0))))
		if s.Dir == types.SendOnly {
			x.chanRecord(st, "sent", ch, x.term(st, x.get(st, fr, s.Send)), here)
			continue
		}
		et := tup.At(k).Type()
		v := x.havocVal(st, "recv", et)
		x.assume(st, c.Imp(c.And(here, c.Not(ok)), c.Eq(x.term(st, v), x.zero(et))))
		x.chanRecord(st, "received", ch, x.term(st, v), c.And(here, ok))
		res = append(res, v)
		k++
	}
	res[0] = idx
	fr.env[in] = res
	return true
}

// havocVal is an arbitrary value of a type
func (x *Exec) havocVal(st *State, name string, t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tup.Len(); i++ {
			r = append(r, x.havocVal(st, name, tup.At(i).Type()))
		}
		return r
	}
	v := x.c.Fresh(name, x.sortOf(t))
	if a, ok := t.Underlying().(*types.Array); ok {
		x.canon[v] = a.Len()
	}
	x.facts(st, v, t)
	return x.lift(v, t)
}

func debugf(f string, as ...interface{}) {
	if os.Getenv("GOCV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", as...)
	}
}
