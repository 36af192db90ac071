package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *PtrV, *ClosureV, *IfaceV, TupleV, *IterV
type Val interface{}

type TupleV []Val

type PtrKind int

const (
	PObj  PtrKind = iota // struct object, fields in per-field heap components
	PLoc                 // comp[ref]
	PElem                // comp[ref][idx]
	PCell                // a local cell
	PArr                 // array object: whole comp[ref]
)

type pathElem struct {
	field string // datatype selector
	dt    *DT
	i     int
	idx   *Term // array index
}

type PtrV struct {
	kind PtrKind
	ref  *Term
	comp string
	idx  *Term
	cell int
	path []pathElem
	elem types.Type
}

func (p *PtrV) String() string {
	s := fmt.Sprintf("ptr%d(%s,%d", p.kind, p.comp, p.cell)
	if p.ref != nil {
		s += fmt.Sprintf(",r%d", p.ref.id)
	}
	if p.idx != nil {
		s += fmt.Sprintf(",i%d", p.idx.id)
	}
	for _, e := range p.path {
		s += "." + e.field
		if e.idx != nil {
			s += fmt.Sprintf("[%d]", e.idx.id)
		}
	}
	return s + ")"
}

type ClosureV struct {
	fn       *ssa.Function
	bindings []Val
	// unknown is set for function values passed from outside
	unknown *Term
	sig     *types.Signature
}

// IfaceV is an interface value with a known dynamic type
type IfaceV struct {
	typ types.Type
	val Val
}

// IterV is a map or string iterator
type IterV struct {
	id   int // cell holding the visited set
	m    *Term
	mt   *types.Map
	dom0 *Term
}

type deferred struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	onRet  func(st *State, res []Val)
	call   ssa.Instruction // call site
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	depth  int
	back   *[]*State
	exits  *[]*State
}

type write struct {
	comp string
	ref  *Term // nil: whole component
}

type State struct {
	pc     []*Term
	heap   map[string]*Term
	cells  map[int]Val
	frames []*Frame
	next   *Term
	known  map[int]bool
	loops  []*loopCtx
	log    *[]write // nil when not recording
	trace  []string
	pre    *State // state at entry of the function under verification
	hooks  []Val  // functions to call when the transaction is committed
}

func (s *State) clone() *State {
	n := &State{next: s.next, log: s.log, pre: s.pre, hooks: s.hooks}
	n.pc = append([]*Term(nil), s.pc...)
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.known = make(map[int]bool, len(s.known))
	for k, v := range s.known {
		n.known[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	n.loops = append([]*loopCtx(nil), s.loops...)
	n.trace = append([]string(nil), s.trace...)
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) logWrite(comp string, ref *Term) {
	if s.log != nil {
		*s.log = append(*s.log, write{comp, ref})
	}
}

//
// heap components
//

func (x *Exec) comp(st *State, name string, sort Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := x.c.Sym("H:"+name, sort)
	if _, ok := x.compSort[name]; !ok {
		x.compSort[name] = sort
		x.compOrd = append(x.compOrd, name)
	}
	st.heap[name] = t
	return t
}

func (x *Exec) setComp(st *State, name string, ref, v *Term) {
	st.heap[name] = v
	st.logWrite(name, ref)
}

func (x *Exec) fieldComp(t types.Type, i int) (string, Sort, types.Type) {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	return "F:" + tname(types.Unalias(t)) + "." + f.Name(), arr(SInt, x.sortOf(f.Type())), f.Type()
}

func (x *Exec) elemComp(el types.Type) (string, Sort) {
	return "E:" + tname(types.Unalias(el)), arr(SInt, arr(SInt, x.sortOf(el)))
}

func (x *Exec) locComp(t types.Type) (string, Sort) {
	return "C:" + tname(types.Unalias(t)), arr(SInt, x.sortOf(t))
}

func (x *Exec) mapComps(m *types.Map) (dom, val, ln string, ks, vs Sort) {
	ks, vs = x.sortOf(m.Key()), x.sortOf(m.Elem())
	n := tname(types.Unalias(m.Key())) + "=>" + tname(types.Unalias(m.Elem()))
	return "MD:" + n, "MV:" + n, "ML:" + n, ks, vs
}

// sub is the address of a struct field embedded by value
func (x *Exec) sub(t types.Type, i int, ref *Term) *Term {
	c := x.c
	s := t.Underlying().(*types.Struct)
	n := "sub." + sanitize(tname(types.Unalias(t))) + "." + s.Field(i).Name()
	if _, ok := c.funs[n]; !ok {
		c.fun(n, SInt, SInt)
		c.fun(n+".inv", SInt, SInt)
		c.fun("sub-tag", SInt, SInt)
		if _, ok := c.funs["obj-root"]; !ok {
			c.fun("obj-root", SInt, SInt)
			o := c.Var("o", SInt)
			c.axioms = append(c.axioms, &Axiom{trig: []string{"obj-root"}, note: "root of an object",
				term: c.Forall([]*Term{o}, c.Imp(c.Le(c.Int(0), o), c.Eq(c.App("obj-root", o), o)), []*Term{c.App("obj-root", o)})})
		}
		v := c.Var("r", SInt)
		a := c.App(n, v)
		x.nsub++
		c.axioms = append(c.axioms, &Axiom{trig: []string{n}, note: "addresses of embedded fields are distinct",
			term: c.Forall([]*Term{v}, c.And(c.Eq(c.App(n+".inv", a), v), c.Lt(a, c.Int(0)), c.Eq(c.App("sub-tag", a), c.Int(int64(x.nsub))),
				c.Eq(c.App("obj-root", a), c.App("obj-root", v))), []*Term{a})})
	}
	return c.App(n, ref)
}

func (x *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = x.c.Add(st.next, x.c.Int(1))
	return r
}

func (x *Exec) newCell(st *State, v Val) int {
	x.ncell++
	st.cells[x.ncell] = v
	return x.ncell
}

func (x *Exec) assume(st *State, t *Term) {
	if x.c.isTrue(t) {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	if st.known[-t.id-1] {
		return
	}
	st.known[-t.id-1] = true
	st.pc = append(st.pc, t)
}

// facts adds the type facts of a value obtained from outside
func (x *Exec) facts(st *State, t *Term, typ types.Type) {
	if t.num != nil || t.bound {
		return
	}
	if st.known[t.id] {
		return
	}
	st.known[t.id] = true
	for _, f := range x.typeFacts(t, typ, st.next) {
		x.assume(st, f)
	}
}

//
// values and terms
//

func (x *Exec) tok(key string, v Val) *Term {
	if t, ok := x.toks[key]; ok {
		return t
	}
	t := x.c.Int(int64(-1000000 - len(x.toks)))
	x.toks[key] = t
	x.tokVal[t] = v
	return t
}

func (x *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *PtrV:
		if (v.kind == PObj || v.kind == PArr) && len(v.path) == 0 {
			return v.ref
		}
		if v.kind == PLoc && len(v.path) == 0 && v.comp[:2] == "C:" {
			return v.ref
		}
		return x.tok(v.String(), v)
	case *ClosureV:
		if v.unknown != nil {
			return v.unknown
		}
		x.nclo++
		return x.tok(fmt.Sprintf("clo%d", x.nclo), v)
	case *RValV:
		return x.tok("rval "+x.term(st, v.val).name+fmt.Sprint(x.term(st, v.val).id), v)
	case *IfaceV:
		t := x.term(st, v.val)
		return x.c.App("mk-iface", x.typeTag(v.typ), x.box(t, v.typ))
	case nil:
		panic(unsup("use of an undefined value"))
	}
	panic(unsup("term of %T", v))
}

// lift converts a term of the Go type to a structured value if needed
func (x *Exec) lift(t *Term, typ types.Type) Val {
	if v, ok := x.tokVal[t]; ok {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return x.ptrTo(t, u.Elem())
	case *types.Signature:
		return &ClosureV{unknown: t, sig: u}
	case *types.Interface:
		if t.op == "mk-iface" && t.args[0].num != nil {
			n := int(t.args[0].num.Int64())
			if n == 0 {
				return t
			}
			if dt, ok := x.tagTypes[n]; ok {
				if v, ok := x.tokVal[t.args[1]]; ok {
					return &IfaceV{dt, v}
				}
				return &IfaceV{dt, x.lift(x.unbox(t.args[1], dt), dt)}
			}
		}
	}
	return t
}

func (x *Exec) ptrTo(ref *Term, elem types.Type) *PtrV {
	if _, ok := isStruct(elem); ok {
		return &PtrV{kind: PObj, ref: ref, elem: elem}
	}
	if a, ok := elem.Underlying().(*types.Array); ok {
		n, _ := x.elemComp(a.Elem())
		return &PtrV{kind: PArr, ref: ref, comp: n, elem: elem}
	}
	n, _ := x.locComp(elem)
	return &PtrV{kind: PLoc, ref: ref, comp: n, elem: elem}
}

// tree of a pointer: sort of its component
func (x *Exec) ptrCompSort(p *PtrV) Sort {
	if s, ok := x.compSort[p.comp]; ok {
		return s
	}
	switch p.kind {
	case PArr:
		a := p.elem.Underlying().(*types.Array)
		return arr(SInt, arr(SInt, x.sortOf(a.Elem())))
	case PLoc:
		return arr(SInt, x.sortOf(p.elem))
	}
	panic(unsup("component sort of %s", p.comp))
}

func (x *Exec) getPath(t *Term, path []pathElem) *Term {
	for _, e := range path {
		if e.idx != nil {
			t = x.c.Select(t, e.idx)
		} else {
			t = x.c.App(e.field, t)
		}
	}
	return t
}

func (x *Exec) setPath(t *Term, path []pathElem, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.idx != nil {
		return x.c.Store(t, e.idx, x.setPath(x.c.Select(t, e.idx), path[1:], v))
	}
	var as []*Term
	for i, f := range e.dt.fields {
		a := x.c.App(f.name, t)
		if i == e.i {
			a = x.setPath(a, path[1:], v)
		}
		as = append(as, a)
	}
	return x.c.App2(e.dt.ctor, as)
}

func (x *Exec) load(st *State, p *PtrV) Val {
	c := x.c
	switch p.kind {
	case PObj:
		s, _ := isStruct(p.elem)
		d := x.structDT(p.elem)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, x.term(st, x.load(st, x.fieldPtr(p, i))))
		}
		return c.App2(d.ctor, as)
	case PCell:
		v := st.cells[p.cell]
		if len(p.path) == 0 {
			return v
		}
		t := x.getPath(x.term(st, v), p.path)
		x.facts(st, t, p.elem)
		return x.lift(t, p.elem)
	case PArr, PLoc:
		if v, ok := x.gvals[p.comp]; ok {
			return x.lift(x.getPath(v, p.path), p.elem)
		}
		t := c.Select(x.comp(st, p.comp, x.ptrCompSort(p)), p.ref)
		t = x.getPath(t, p.path)
		x.facts(st, t, p.elem)
		return x.lift(t, p.elem)
	case PElem:
		t := c.Select(c.Select(x.comp(st, p.comp, x.compSort[p.comp]), p.ref), p.idx)
		t = x.getPath(t, p.path)
		x.facts(st, t, p.elem)
		return x.lift(t, p.elem)
	}
	panic("load")
}

func (x *Exec) store(st *State, p *PtrV, v Val) {
	c := x.c
	switch p.kind {
	case PObj:
		s, _ := isStruct(p.elem)
		d := x.structDT(p.elem)
		t := x.term(st, v)
		for i := 0; i < s.NumFields(); i++ {
			x.store(st, x.fieldPtr(p, i), c.App(d.fields[i].name, t))
		}
	case PCell:
		if len(p.path) == 0 {
			st.cells[p.cell] = v
		} else {
			st.cells[p.cell] = x.setPath(x.term(st, st.cells[p.cell]), p.path, x.term(st, v))
		}
		st.logWrite(fmt.Sprintf("cell:%d", p.cell), nil)
	case PArr, PLoc:
		h := x.comp(st, p.comp, x.ptrCompSort(p))
		old := c.Select(h, p.ref)
		x.setComp(st, p.comp, p.ref, c.Store(h, p.ref, x.setPath(old, p.path, x.term(st, v))))
	case PElem:
		h := x.comp(st, p.comp, x.compSort[p.comp])
		a := c.Select(h, p.ref)
		old := c.Select(a, p.idx)
		x.setComp(st, p.comp, p.ref, c.Store(h, p.ref, c.Store(a, p.idx, x.setPath(old, p.path, x.term(st, v)))))
	}
}

func (x *Exec) fieldPtr(p *PtrV, i int) *PtrV {
	s, ok := isStruct(p.elem)
	if !ok && p.kind == PLoc && len(p.path) == 0 && strings.HasPrefix(p.comp, "C:") && opaqueStruct(p.elem) {
		// an exported field of a structure of a dependency
		n, srt, ft := x.fieldComp(p.elem, i)
		if _, ok := x.compSort[n]; !ok {
			x.compSort[n] = srt
			x.compOrd = append(x.compOrd, n)
		}
		return &PtrV{kind: PLoc, ref: p.ref, comp: n, elem: ft}
	}
	if !ok {
		panic(unsup("field of opaque struct %s", p.elem))
	}
	ft := s.Field(i).Type()
	if p.kind == PObj {
		if _, ok := isStruct(ft); ok {
			return &PtrV{kind: PObj, ref: x.sub(p.elem, i, p.ref), elem: ft}
		}
		n, srt, _ := x.fieldComp(p.elem, i)
		if _, ok := x.compSort[n]; !ok {
			x.compSort[n] = srt
			x.compOrd = append(x.compOrd, n)
		}
		return &PtrV{kind: PLoc, ref: p.ref, comp: n, elem: ft}
	}
	d := x.structDT(p.elem)
	q := *p
	q.path = append(append([]pathElem(nil), p.path...), pathElem{field: d.fields[i].name, dt: d, i: i})
	q.elem = ft
	return &q
}

// bytesOf is the contents of a slice of bytes as a value
func (x *Exec) bytesOf(st *State, s *Term) *Term {
	c := x.c
	n, srt := x.elemComp(types.Typ[types.Uint8])
	h := x.comp(st, n, srt)
	return x.seqOf(c.Select(h, c.App("s-ref", s)), c.App("s-off", s), c.App("s-len", s))
}

// seqOf is mk-bs(len, shift(a, off, len))
func (x *Exec) seqOf(a, off, ln *Term) *Term {
	return x.c.App("mk-bs", ln, x.shift(a, off, ln))
}

// shift(a, off, n)[i] = a[off+i] for 0 <= i < n, and 0 elsewhere
func (x *Exec) shift(a, off, n *Term) *Term {
	c := x.c
	as := a.sort
	_, es := arrElems(as)
	f := "shift." + sanitize(es)
	if _, ok := c.funs[f]; !ok {
		c.fun(f, as, as, SInt, SInt)
		av, o, nn, i := c.Var("a", as), c.Var("o", SInt), c.Var("n", SInt), c.Var("i", SInt)
		ap := c.App(f, av, o, nn)
		sel := c.Select(ap, i)
		def := x.defOf(es)
		c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: "definition of shift",
			term: c.Forall([]*Term{av, o, nn, i}, c.Eq(sel, c.Ite(c.And(c.Le(c.Int(0), i), c.Lt(i, nn)), c.Select(av, c.Add(o, i)), def)), []*Term{sel})})
		// shift of shift
		o2, n2 := c.Var("p", SInt), c.Var("m", SInt)
		ap2 := c.App(f, ap, o2, n2)
		c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: "shift of shift",
			term: c.Forall([]*Term{av, o, nn, o2, n2}, c.Imp(c.And(c.Le(c.Int(0), o2), c.Le(c.Add(o2, n2), nn)),
				c.Eq(ap2, c.App(f, av, c.Add(o, o2), n2))), []*Term{ap2})})
	}
	if n.num != nil && n.num.Sign() == 0 {
		return c.ConstArr(as, x.defOf(es))
	}
	if a.op == f && off.num != nil && off.num.Sign() == 0 && a.args[2] == n {
		return a
	}
	if k, ok := x.canon[a]; ok && off.num != nil && off.num.Sign() == 0 && n.num != nil && n.num.Int64() == k {
		if len(a.args) == 0 && !a.bound && !x.canonAx[a] {
			// for a place where it is met through a store
			x.canonAx[a] = true
			c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: "an array has nothing beyond its length", term: c.Eq(c.App(f, a, off, n), a)})
		}
		return a
	}
	// an update beyond the window is not visible
	if a.op == "ite" && !a.bound {
		return c.Ite(a.args[0], x.shift(a.args[1], off, n), x.shift(a.args[2], off, n))
	}
	if a.op == "bs-data" && isZero(off) && n.op == "bs-len" && n.args[0] == a.args[0] && a.args[0].op != "ite" {
		// contents obtained as a value have nothing beyond their length
		return a
	}
	if strings.HasPrefix(a.op, "Seq.") && strings.HasSuffix(a.op, ".data") && isZero(off) && n.op == strings.TrimSuffix(a.op, "data")+"len" && n.args[0] == a.args[0] {
		return a
	}
	for a.op == "splice."+sanitize(es) && a.args[1] == off && a.args[4] == n {
		// the spliced part itself
		return x.shift(a.args[2], a.args[3], n)
	}
	for a.op == "splice."+sanitize(es) && a.args[1].num != nil && off.num != nil && n.num != nil {
		// splice(base, pos, b, boff, n)
		pos, ln := a.args[1].num.Int64(), a.args[4].num
		if off.num.Int64()+n.num.Int64() <= pos || ln != nil && off.num.Int64() >= pos+ln.Int64() {
			a = a.args[0]
			continue
		}
		if off.num.Int64() >= pos && ln != nil && off.num.Int64()+n.num.Int64() <= pos+ln.Int64() {
			return x.shift(a.args[2], c.Add(a.args[3], c.Int(off.num.Int64()-pos)), n)
		}
		break
	}
	return c.App(f, a, off, n)
}

// splice(a, pos, b, boff, n)[i] = b[boff+i-pos] if pos <= i < pos+n, else a[i]
func (x *Exec) splice(a, pos, b, boff, n *Term) *Term {
	c := x.c
	as := a.sort
	_, es := arrElems(as)
	f := "splice." + sanitize(es)
	if _, ok := c.funs[f]; !ok {
		c.fun(f, as, as, SInt, as, SInt, SInt)
		av, p, bv, o, nn, i := c.Var("a", as), c.Var("p", SInt), c.Var("b", as), c.Var("o", SInt), c.Var("n", SInt), c.Var("i", SInt)
		sel := c.Select(c.App(f, av, p, bv, o, nn), i)
		c.axioms = append(c.axioms, &Axiom{trig: []string{f}, note: "definition of splice",
			term: c.Forall([]*Term{av, p, bv, o, nn, i}, c.Eq(sel, c.Ite(c.And(c.Le(p, i), c.Lt(i, c.Add(p, nn))), c.Select(bv, c.Add(c.Sub(i, p), o)), c.Select(av, i))), []*Term{sel})})
	}
	if n.num != nil && n.num.Sign() == 0 {
		return a
	}
	if n.num != nil && n.num.Cmp(c.Int(4).num) <= 0 {
		r := a
		for k := int64(0); k < n.num.Int64(); k++ {
			r = c.Store(r, c.Add(pos, c.Int(k)), c.Select(b, c.Add(boff, c.Int(k))))
		}
		return r
	}
	return c.App(f, a, pos, b, boff, n)
}

func (x *Exec) defOf(s Sort) *Term {
	c := x.c
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.Bool(false)
	case SReal:
		return c.Real("0.0")
	case SStr:
		return x.strLit("")
	case SSlice:
		return x.nilSlice()
	case SIface:
		return x.nilIface()
	}
	if len(s) > 7 && s[:7] == "(Array " {
		_, v := arrElems(s)
		return c.ConstArr(s, x.defOf(v))
	}
	if d, ok := c.dts[s]; ok {
		var as []*Term
		for _, f := range d.fields {
			as = append(as, x.defOf(f.sort))
		}
		return c.App2(d.ctor, as)
	}
	n := "def." + sanitize(s)
	return c.Sym(n, s)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
