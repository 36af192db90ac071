package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strings"
)

type Clause struct {
	Lemma bool // proved, then assumed for the clauses that follow
	Name  string
	Text  string
	Expr  ast.Expr
}

type InvT struct {
	Text  string
	Expr  ast.Expr
	Holes []string
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
	Text   string
	Pkg    string
}

// Contract of one function
type Contract struct {
	Props    []string
	Name     string // canonical function name
	Tag      string // distinguishes several contracts of one function
	Pkg      string // package path, relative
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	HasFrame bool
	Invs     []InvT
	Opaque   bool
	Trusted  bool
	IsIface  bool
	IsMethod bool
	PanicsOK bool
	Pure     bool
	Unroll   int
	MaxPaths int
	Pures    []string
	File     string
	Line     int
	recvExpr string
	NoSafety bool
	Note     string
	Hide     []string
	Guards   []guardDecl
	Holds    []holdDecl
	Uses     []string
}

func (c *Contract) RecvType(w *World) types.Type {
	if c.recvExpr == "" {
		return nil
	}
	return w.typeOf(c.Pkg, c.recvExpr)
}

type holdDecl struct {
	Clause
	State int64
}

type SVal struct {
	v Val
	t types.Type
}

var keywords = map[string]bool{"package": true, "prop": true, "func": true, "iface": true, "requires": true, "ensures": true, "lemma": true, "modifies": true,
	"inv": true, "opaque": true, "trusted": true, "panics": true, "unroll": true, "define": true, "ghost": true, "smtfun": true, "axiom": true,
	"pure": true, "paths": true, "note": true, "nosafety": true, "hide": true, "guarded": true, "holds": true, "rholds": true, "uses": true}

type GhostDecl struct {
	Name string
	Sort Sort
	Type string // Go type of the value, optional
	Free bool   // not part of frame conditions
}

type SpecFile struct {
	Path      string
	Contracts []*Contract
}

func splitNames(s string) []string {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	var out []string
	for _, p := range strings.Split(s, ",") {
		out = append(out, strings.TrimSpace(p))
	}
	return out
}

var sigRe = regexp.MustCompile(`^(\(\*?[A-Za-z0-9_.]+\)\.)?([A-Za-z0-9_.$]+)(#[A-Za-z0-9_]+)?\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
var holeRe = regexp.MustCompile(`\b_[a-zA-Z][a-zA-Z0-9]*\b`)
var nameRe = regexp.MustCompile(`^([A-Za-z0-9_\-]+):\s`)

// newName refuses two definitions of one name: macros, ghosts and
// uninterpreted functions of all files share a name space
func (w *World) newName(path, name string) error {
	if p, ok := w.specNames[name]; ok {
		return fmt.Errorf("%s: %s is defined in %s too", path, name, p)
	}
	w.specNames[name] = path
	return nil
}

func (w *World) loadSpec(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	type line struct {
		n    int
		text string
	}
	var lines []line
	for i, l := range strings.Split(string(b), "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		first := strings.Fields(t)[0]
		if keywords[first] {
			lines = append(lines, line{i + 1, t})
		} else if len(lines) > 0 {
			lines[len(lines)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", path, i+1, t)
		}
	}
	var pkg string
	var prop []string
	var cur *Contract
	parse := func(ln line, s string) ast.Expr {
		e, perr := parser.ParseExpr(s)
		if perr != nil && err == nil {
			err = fmt.Errorf("%s:%d: %v in %q", path, ln.n, perr, s)
		}
		return e
	}
	for _, ln := range lines {
		kw := strings.Fields(ln.text)[0]
		rest := strings.TrimSpace(strings.TrimPrefix(ln.text, kw))
		clause := func() Clause {
			cl := Clause{Text: rest}
			s := rest
			if m := nameRe.FindStringSubmatch(s); m != nil {
				cl.Name = m[1]
				s = s[len(m[0]):]
			} else {
				cl.Name = s
				if len(cl.Name) > 40 {
					cl.Name = cl.Name[:40]
				}
			}
			cl.Expr = parse(ln, s)
			return cl
		}
		switch kw {
		case "package":
			pkg = rest
		case "prop":
			prop = splitNames(rest)
		case "define":
			// define name(params) = body
			i := strings.Index(rest, "=")
			h, ok := strings.CutSuffix(strings.TrimSpace(rest[:i]), ")")
			if !ok {
				return fmt.Errorf("%s:%d: define", path, ln.n)
			}
			j := strings.IndexByte(h, '(')
			m := &Macro{Name: strings.TrimSpace(h[:j]), Params: splitNames(h[j+1:]), Text: rest[i+1:], Pkg: pkg}
			m.Body = parse(ln, rest[i+1:])
			if err := w.newName(path, m.Name); err != nil {
				return err
			}
			w.macros[m.Name] = m
		case "ghost":
			// ghost name : sort
			p := strings.SplitN(rest, ":", 2)
			if err := w.newName(path, strings.TrimSpace(p[0])); err != nil {
				return err
			}
			w.ghosts[strings.TrimSpace(p[0])] = &GhostDecl{Name: strings.TrimSpace(p[0]), Sort: strings.TrimSpace(p[1])}
		case "smtfun":
			// smtfun name (sorts) sort
			if err := w.newName(path, strings.Fields(rest)[0]); err != nil {
				return err
			}
			w.smtfuns = append(w.smtfuns, rest)
		case "axiom":
			w.rawAxioms = append(w.rawAxioms, rest)
		case "func", "iface":
			m := sigRe.FindStringSubmatch(rest)
			if m == nil {
				return fmt.Errorf("%s:%d: signature %q", path, ln.n, rest)
			}
			cur = &Contract{Pkg: pkg, Props: prop, File: path, Line: ln.n, IsIface: kw == "iface"}
			recv := m[1]
			switch {
			case kw == "iface":
				cur.Name = m[2]
				if pkg != "" && strings.Count(m[2], ".") == 1 {
					cur.Name = pkg + "." + m[2]
				}
				cur.IsMethod = true
				cur.Opaque = true
				cur.Trusted = true
			case recv != "":
				r := strings.TrimSuffix(strings.TrimPrefix(recv, "("), ").")
				cur.recvExpr = r
				if strings.HasPrefix(r, "*") {
					r = "*" + pkg + "." + r[1:]
				} else {
					r = pkg + "." + r
				}
				cur.Name = "(" + r + ")." + m[2]
				cur.IsMethod = true
			default:
				cur.Name = pkg + "." + m[2]
			}
			cur.Tag = m[3]
			cur.Params = splitNames(m[4])
			cur.Results = splitNames(m[5])
			w.contracts = append(w.contracts, cur)
		case "requires":
			cur.Requires = append(cur.Requires, clause())
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause())
		case "lemma":
			cl := clause()
			cl.Lemma = true
			cur.Ensures = append(cur.Ensures, cl)
		case "modifies":
			cur.HasFrame = true
			if rest == "nothing" {
				break
			}
			for _, p := range splitTop(rest) {
				cur.Modifies = append(cur.Modifies, Clause{Name: p, Text: p, Expr: parse(ln, strings.ReplaceAll(p, "[*]", "[all]"))})
			}
		case "inv":
			iv := InvT{Text: rest}
			iv.Expr = parse(ln, rest)
			seen := map[string]bool{}
			for _, h := range holeRe.FindAllString(rest, -1) {
				if !seen[h] {
					seen[h] = true
					iv.Holes = append(iv.Holes, h)
				}
			}
			cur.Invs = append(cur.Invs, iv)
		case "guarded":
			m := strings.SplitN(rest, ":", 2)
			if len(m) != 2 {
				return fmt.Errorf("%s:%d: guarded mutex: locations", path, ln.n)
			}
			g := guardDecl{Mutex: Clause{Name: m[0], Text: m[0], Expr: parse(ln, m[0])}}
			for _, p := range splitTop(m[1]) {
				g.Locs = append(g.Locs, Clause{Name: p, Text: p, Expr: parse(ln, strings.ReplaceAll(p, "[*]", "[all]"))})
			}
			cur.Guards = append(cur.Guards, g)
		case "holds", "rholds":
			s := int64(-1)
			if kw == "rholds" {
				s = 1
			}
			cur.Holds = append(cur.Holds, holdDecl{Clause{Name: rest, Text: rest, Expr: parse(ln, rest)}, s})
		case "opaque":
			cur.Opaque = true
		case "trusted":
			cur.Trusted = true
			cur.Opaque = true
		case "panics":
			cur.PanicsOK = true
		case "nosafety":
			cur.NoSafety = true
		case "unroll":
			fmt.Sscan(rest, &cur.Unroll)
		case "paths":
			fmt.Sscan(rest, &cur.MaxPaths)
		case "pure":
			if rest == "" {
				cur.Pure = true
			} else {
				cur.Pures = append(cur.Pures, splitNames(rest)...)
			}
		case "note":
			cur.Note = rest
		case "uses":
			cur.Uses = append(cur.Uses, splitNames(rest)...)
		case "hide":
			cur.Hide = append(cur.Hide, splitNames(rest)...)
		}
		if err != nil {
			return err
		}
	}
	return err
}

func splitTop(s string) (out []string) {
	depth, start := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[start:]))
}

//
// evaluation
//

type scope struct {
	x     *Exec
	cur   *State
	old   *State
	entry *State
	env   map[string]SVal
	pkg   string
	depth int
}

type specErr struct{ msg string }

func (e specErr) Error() string { return "spec: " + e.msg }

func serr(f string, as ...interface{}) specErr { return specErr{fmt.Sprintf(f, as...)} }

func (x *Exec) view(st *State, cur *State) *State {
	return &State{heap: st.heap, cells: st.cells, next: st.next, known: cur.known, frames: st.frames}
}

func (x *Exec) evalSpecBool(st, pre *State, env map[string]SVal, e ast.Expr, ct *Contract) *Term {
	sc := &scope{x: x, cur: st, old: pre, env: env, pkg: ct.Pkg}
	v := sc.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		panic(serr("not a boolean in contract of %s", ct.Name))
	}
	return t
}

func (x *Exec) evalSpecLoop(st, entry *State, env map[string]SVal, e ast.Expr) *Term {
	sc := &scope{x: x, cur: st, old: st.preState(x), entry: entry, env: env, pkg: x.ct.Pkg}
	v := sc.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		panic(serr("loop invariant is not boolean"))
	}
	return t
}

func (st *State) preState(x *Exec) *State { return x.preState }

func (sc *scope) term(v SVal) *Term {
	if a, ok := v.v.(addrV); ok {
		return sc.x.term(sc.cur, sc.load(sc.cur, a.p))
	}
	return sc.x.term(sc.cur, v.v)
}

func (sc *scope) load(st *State, p *PtrV) Val {
	vw := sc.x.view(st, sc.cur)
	v := sc.x.load(vw, p)
	sc.cur.pc = append(sc.cur.pc, vw.pc...)
	return v
}

func (sc *scope) state() *State { return sc.cur }

// in evaluates with another current state
func (sc *scope) in(st *State, e ast.Expr) SVal {
	n := *sc
	save := sc.cur
	n.cur = sc.x.view(st, save)
	v := n.eval(e)
	if a, ok := v.v.(addrV); ok {
		v = SVal{n.load(n.cur, a.p), v.t}
	}
	save.pc = append(save.pc, n.cur.pc...)
	return v
}

var tInt types.Type = types.Typ[types.UntypedInt]
var tBool types.Type = types.Typ[types.Bool]

func (sc *scope) boolV(t *Term) SVal { return SVal{t, tBool} }

func (sc *scope) eval(e ast.Expr) SVal {
	x, c := sc.x, sc.x.c
	sc.depth++
	defer func() { sc.depth-- }()
	if sc.depth > 400 {
		panic(serr("expression too deep"))
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return sc.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0)
			if !ok {
				panic(serr("literal %s", e.Value))
			}
			return SVal{c.Big(n), tInt}
		case token.FLOAT:
			// the float64 that Go takes for the literal
			f, _ := constant.Float64Val(constant.MakeFromLiteral(e.Value, token.FLOAT, 0))
			return SVal{x.realConst(constant.MakeFloat64(f)), types.Typ[types.Float64]}
		case token.STRING:
			return SVal{x.strLit(e.Value[1 : len(e.Value)-1]), types.Typ[types.String]}
		}
	case *ast.Ident:
		return sc.ident(e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return sc.boolV(c.Not(sc.term(sc.eval(e.X))))
		case token.SUB:
			v := sc.eval(e.X)
			t := sc.term(v)
			if t.sort == SReal {
				return SVal{c.Sub(c.Real("0.0"), t), v.t}
			}
			return SVal{c.Sub(c.Int(0), t), tInt}
		}
	case *ast.StarExpr:
		v := sc.eval(e.X)
		p := x.asPtr(v.v, v.t)
		return SVal{sc.load(sc.cur, p), p.elem}
	case *ast.BinaryExpr:
		return sc.binary(e)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := sc.env[id.Name]; !bound {
				if p := x.w.importOf(sc.pkg, id.Name); p != nil {
					return sc.pkgObj(p, e.Sel.Name)
				}
			}
		}
		return sc.field(sc.eval(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		return sc.index(sc.eval(e.X), e.Index)
	case *ast.SliceExpr:
		v := sc.eval(e.X)
		s := sc.term(v)
		if s.sort == SStr {
			lo, hi := c.Int(0), x.strLen(s)
			if e.Low != nil {
				lo = sc.term(sc.eval(e.Low))
			}
			if e.High != nil {
				hi = sc.term(sc.eval(e.High))
			}
			c.fun("str-sub", SStr, SStr, SInt, SInt)
			return SVal{c.App("str-sub", s, lo, hi), v.t}
		}
		lo, hi := c.Int(0), c.App("s-len", s)
		if e.Low != nil {
			lo = sc.term(sc.eval(e.Low))
		}
		if e.High != nil {
			hi = sc.term(sc.eval(e.High))
		}
		return SVal{c.App("mk-slice", c.App("s-ref", s), c.Add(c.App("s-off", s), lo), c.Sub(hi, lo), c.Sub(c.App("s-cap", s), lo)), v.t}
	case *ast.CompositeLit:
		t := sc.typ(e.Type)
		if len(e.Elts) != 0 {
			panic(serr("composite literal with elements"))
		}
		return SVal{x.zero(t), t}
	case *ast.CallExpr:
		return sc.call(e)
	}
	panic(serr("expression %T", e))
}

func (sc *scope) typ(e ast.Expr) types.Type {
	t := sc.x.w.resolveType(sc.pkg, e)
	if t == nil {
		panic(serr("unknown type %s", exprStr(e)))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (sc *scope) ident(n string) SVal {
	x, c := sc.x, sc.x.c
	if v, ok := sc.env[n]; ok {
		if cv, ok := v.v.(varV); ok {
			if cv.p.kind == PObj {
				return SVal{addrV{cv.p}, v.t}
			}
			return SVal{sc.load(sc.cur, cv.p), v.t}
		}
		return v
	}
	switch n {
	case "nil":
		return SVal{c.Int(0), types.Typ[types.UntypedNil]}
	case "true":
		return sc.boolV(c.Bool(true))
	case "false":
		return sc.boolV(c.Bool(false))
	}
	if p := x.w.pkgByRel(sc.pkg); p != nil {
		if p.Scope().Lookup(n) != nil {
			return sc.pkgObj(p, n)
		}
	}
	panic(serr("unknown name %s", n))
}

func (sc *scope) pkgObj(p *types.Package, n string) SVal {
	x, c := sc.x, sc.x.c
	switch o := p.Scope().Lookup(n).(type) {
	case *types.Const:
		v := x.constOf(o)
		return SVal{v, o.Type()}
	case *types.Var:
		if types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
			return SVal{x.errGlobal(p.Path() + "." + n), o.Type()}
		}
		g := x.w.global(p, n)
		if g == nil {
			panic(serr("global %s", n))
		}
		ptr := x.globalPtr(g).(*PtrV)
		return SVal{sc.load(sc.cur, ptr), o.Type()}
	}
	_ = c
	panic(serr("unknown object %s.%s", p.Name(), n))
}

func (sc *scope) field(v SVal, name string) SVal {
	x, c := sc.x, sc.x.c
	if v.t == nil {
		panic(serr("field %s of an untyped value", name))
	}
	var pkg *types.Package = x.w.pkgByRel(sc.pkg)
	base := v.t
	if n := namedOf(base); n != nil && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(base, true, pkg, name)
	if obj == nil {
		panic(serr("no field %s in %s", name, base))
	}
	cur := v
	for _, i := range path {
		t := cur.t
		var ptr *PtrV
		var elem types.Type
		if a, ok := cur.v.(addrV); ok {
			ptr, elem = a.p, t
		} else if p, ok := t.Underlying().(*types.Pointer); ok {
			ptr, elem = x.asPtr(cur.v, t), p.Elem()
		}
		if ptr != nil {
			fp := x.fieldPtr(ptr, i)
			ft := elem.Underlying().(*types.Struct).Field(i).Type()
			if _, isS := isStruct(ft); isS {
				// kept by address; rval loads it
				cur = SVal{addrV{fp}, ft}
				continue
			}
			cur = SVal{sc.load(sc.cur, fp), ft}
			continue
		}
		st, ok := isStruct(t)
		if !ok {
			panic(serr("field %s of %s", name, t))
		}
		d := x.structDT(t)
		tt := sc.term(cur)
		ft := st.Field(i).Type()
		cur = SVal{x.lift(c.App(d.fields[i].name, tt), ft), ft}
	}
	// a struct-valued field was kept as a pointer: load it unless selected
	return cur
}

// varV is a captured variable, read in the state of the expression
type varV struct{ p *PtrV }

// addrV is a struct value kept by the address it is stored at
type addrV struct{ p *PtrV }

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (sc *scope) index(v SVal, ie ast.Expr) SVal {
	x, c := sc.x, sc.x.c
	t := sc.term(v)
	idx := func() *Term { return sc.term(sc.eval(ie)) }
	if v.t == nil {
		// ghost array
		return SVal{c.Select(t, idx()), nil}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Map:
		_, val, _ := x.mapView(sc.cur, t, u)
		r := c.Select(val, idx())
		x.facts(sc.cur, r, u.Elem())
		return SVal{x.lift(r, u.Elem()), u.Elem()}
	case *types.Slice:
		n, srt := x.elemComp(u.Elem())
		r := c.Select(c.Select(x.comp(sc.cur, n, srt), c.App("s-ref", t)), c.Add(c.App("s-off", t), idx()))
		x.facts(sc.cur, r, u.Elem())
		return SVal{x.lift(r, u.Elem()), u.Elem()}
	case *types.Array:
		r := c.Select(t, idx())
		x.facts(sc.cur, r, u.Elem())
		return SVal{r, u.Elem()}
	}
	panic(serr("index of %s", v.t))
}

func (sc *scope) binary(e *ast.BinaryExpr) SVal {
	x, c := sc.x, sc.x.c
	switch e.Op {
	case token.LAND:
		a := sc.term(sc.eval(e.X))
		if c.isFalse(a) {
			return sc.boolV(a)
		}
		return sc.boolV(c.And(a, sc.term(sc.eval(e.Y))))
	case token.LOR:
		a := sc.term(sc.eval(e.X))
		if c.isTrue(a) {
			return sc.boolV(a)
		}
		return sc.boolV(c.Or(a, sc.term(sc.eval(e.Y))))
	}
	a, b := sc.eval(e.X), sc.eval(e.Y)
	isNil := func(v SVal) bool { return v.t == types.Typ[types.UntypedNil] }
	if e.Op == token.EQL || e.Op == token.NEQ {
		var r *Term
		switch {
		case isNil(a) || isNil(b):
			if isNil(a) {
				a, b = b, a
			}
			t := sc.term(a)
			switch t.sort {
			case SIface:
				r = c.Eq(c.App("i-tag", t), c.Int(0))
			case SSlice:
				r = c.Eq(c.App("s-ref", t), c.Int(0))
			default:
				r = c.Eq(t, c.Int(0))
			}
		default:
			ta, tb := sc.term(a), sc.term(b)
			ta, tb = sc.unify(ta, tb)
			r = c.Eq(ta, tb)
		}
		if e.Op == token.NEQ {
			r = c.Not(r)
		}
		return sc.boolV(r)
	}
	ta, tb := sc.term(a), sc.term(b)
	ta, tb = sc.unify(ta, tb)
	rt := a.t
	if rt == tInt {
		rt = b.t
	}
	if ta.sort == SInt {
		rt = tInt
	}
	if ta.sort == SStr && (e.Op == token.LSS || e.Op == token.LEQ || e.Op == token.GTR || e.Op == token.GEQ) {
		c.fun("str-rank", SReal, SStr)
		x.strRankAxiom()
		ta, tb = c.App("str-rank", ta), c.App("str-rank", tb)
	}
	switch e.Op {
	case token.LSS:
		return sc.boolV(c.Lt(ta, tb))
	case token.LEQ:
		return sc.boolV(c.Le(ta, tb))
	case token.GTR:
		return sc.boolV(c.Lt(tb, ta))
	case token.GEQ:
		return sc.boolV(c.Le(tb, ta))
	case token.ADD:
		if ta.sort == SStr {
			return SVal{x.strCat(sc.cur, ta, tb), a.t}
		}
		return SVal{c.Add(ta, tb), rt}
	case token.SUB:
		return SVal{c.Sub(ta, tb), rt}
	case token.MUL:
		return SVal{c.Mul(ta, tb), rt}
	case token.QUO:
		if ta.sort == SReal {
			return SVal{c.mk(Term{op: "/", args: []*Term{ta, tb}, sort: SReal}), rt}
		}
		return SVal{c.Div(ta, tb), rt}
	case token.REM:
		return SVal{c.Mod(ta, tb), rt}
	case token.AND:
		return SVal{x.bitop(token.AND, ta, tb, types.Typ[types.Uint64]), rt}
	}
	panic(serr("operator %s", e.Op))
}

func (sc *scope) unify(a, b *Term) (*Term, *Term) {
	c := sc.x.c
	if a.sort == SReal && b.sort == SInt {
		if b.num != nil {
			b = c.Real(b.num.String() + ".0")
		} else {
			b = c.mk(Term{op: "to_real", args: []*Term{b}, sort: SReal})
		}
	} else if b.sort == SReal && a.sort == SInt {
		b2, a2 := sc.unify(b, a)
		return a2, b2
	}
	return a, b
}

func (sc *scope) call(e *ast.CallExpr) SVal {
	x, c := sc.x, sc.x.c
	arg := func(i int) SVal { return sc.eval(e.Args[i]) }
	argT := func(i int) *Term { return sc.term(arg(i)) }
	if id, ok := e.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "old":
			return sc.in(sc.old, e.Args[0])
		case "entry":
			if h, ok := e.Args[0].(*ast.Ident); ok {
				if v, ok := sc.env["entry:"+h.Name]; ok {
					return v
				}
			}
			if sc.entry == nil {
				panic(serr("entry outside of a loop"))
			}
			n := *sc
			n.env = map[string]SVal{}
			for k, v := range sc.env {
				if strings.HasPrefix(k, "entry:") {
					n.env[strings.TrimPrefix(k, "entry:")] = v
				} else if _, ok := n.env[k]; !ok {
					n.env[k] = v
				}
			}
			return n.in(sc.entry, e.Args[0])
		case "imp":
			a := argT(0)
			if c.isFalse(a) {
				return sc.boolV(c.Bool(true))
			}
			return sc.boolV(c.Imp(a, argT(1)))
		case "iff":
			return sc.boolV(c.Eq(argT(0), argT(1)))
		case "ite":
			a, b := arg(1), arg(2)
			ta, tb := sc.unify(sc.term(a), sc.term(b))
			return SVal{c.Ite(argT(0), ta, tb), a.t}
		case "and":
			var ts []*Term
			for i := range e.Args {
				ts = append(ts, argT(i))
			}
			return sc.boolV(c.And(ts...))
		case "len":
			v := arg(0)
			t := sc.term(v)
			switch t.sort {
			case SSlice:
				return SVal{c.App("s-len", t), tInt}
			case SStr:
				return SVal{x.strLen(t), tInt}
			case SBS:
				return SVal{c.App("bs-len", t), tInt}
			}
			if m, ok := v.t.Underlying().(*types.Map); ok {
				dom, _, ln := x.mapView(sc.cur, t, m)
				if !ln.bound {
					x.lenFacts(sc.cur, ln)
					k := c.Var("k", x.sortOf(m.Key()))
					h := c.Select(dom, k)
					x.assume(sc.cur, c.Forall([]*Term{k}, c.Imp(h, c.Lt(c.Int(0), ln)), []*Term{h}))
				}
				return SVal{ln, tInt}
			}
			if a, ok := v.t.Underlying().(*types.Array); ok {
				return SVal{c.Int(a.Len()), tInt}
			}
			panic(serr("len of %s", t.sort))
		case "cap":
			return SVal{c.App("s-cap", argT(0)), tInt}
		case "has":
			v := arg(0)
			m, ok := v.t.Underlying().(*types.Map)
			if !ok {
				panic(serr("has of %s", v.t))
			}
			return sc.boolV(x.mapHas(sc.cur, sc.term(v), m, argT(1)))
		case "dom", "vals":
			v := arg(0)
			m := v.t.Underlying().(*types.Map)
			d, vv, _ := x.mapView(sc.cur, sc.term(v), m)
			if id.Name == "dom" {
				return SVal{d, nil}
			}
			return SVal{vv, nil}
		case "forall", "exists":
			return sc.quant(id.Name, e)
		case "bytes":
			if v := arg(0); v.t != nil {
				if a, ok := v.t.Underlying().(*types.Array); ok {
					return SVal{x.seqOf(sc.term(v), c.Int(0), c.Int(a.Len())), nil}
				}
			}
			return SVal{x.bytesOf(sc.cur, argT(0)), nil}
		case "elems":
			// the backing array of a slice
			v := arg(0)
			n, srt := x.elemComp(v.t.Underlying().(*types.Slice).Elem())
			return SVal{c.Select(x.comp(sc.cur, n, srt), c.App("s-ref", sc.term(v))), nil}
		case "ref":
			t := argT(0)
			if t.sort == SSlice {
				t = c.App("s-ref", t)
			}
			if t.sort == SIface {
				t = c.App("i-val", t)
			}
			return SVal{t, tInt}
		case "among":
			// a value is among the elements of a slice
			v := arg(1)
			return sc.boolV(x.memb(sc.cur, sc.term(v), v.t.Underlying().(*types.Slice).Elem(), argT(0)))
		case "seq":
			// the contents of a slice as a value
			v := arg(0)
			return SVal{x.seq(sc.cur, sc.term(v), v.t.Underlying().(*types.Slice).Elem()), nil}
		case "list", "cons":
			// a sequence of interface values; cons(a, ..., slice)
			n := len(e.Args)
			tail := x.emptySeq(SIface)
			if id.Name == "cons" {
				n--
				v := arg(n)
				if tail = sc.term(v); tail.sort == SSlice {
					tail = x.seq(sc.cur, tail, v.t.Underlying().(*types.Slice).Elem())
				}
			}
			var vs []*Term
			for i := 0; i < n; i++ {
				v := arg(i)
				t := sc.term(v)
				if t.sort != SIface {
					t = x.term(sc.cur, &IfaceV{v.t, t})
				}
				vs = append(vs, t)
			}
			return SVal{x.consSeq(vs, tail), nil}
		case "off":
			return SVal{c.App("s-off", argT(0)), tInt}
		case "fresh":
			t := argT(0)
			if t.sort == SSlice {
				t = c.App("s-ref", t)
			}
			return sc.boolV(c.Le(sc.old.next, t))
		case "alive":
			// allocated by now
			t := argT(0)
			if t.sort == SSlice {
				t = c.App("s-ref", t)
			}
			return sc.boolV(c.Lt(t, sc.cur.next))
		case "is":
			t := argT(0)
			return sc.boolV(c.Eq(c.App("i-tag", t), x.typeTag(sc.typ(e.Args[1]))))
		case "unboxed":
			ty := sc.typ(e.Args[1])
			return SVal{x.lift(x.unbox(c.App("i-val", argT(0)), ty), ty), ty}
		case "store":
			return SVal{c.Store(argT(0), argT(1), argT(2)), nil}
		case "sel":
			return SVal{c.Select(argT(0), argT(1)), nil}
		case "addr":
			// address of a field: addr(p.f)
			s, ok := e.Args[0].(*ast.SelectorExpr)
			if !ok {
				panic(serr("addr"))
			}
			p, ft := sc.fieldAddr(sc.eval(s.X), s.Sel.Name)
			return SVal{p, types.NewPointer(ft)}
		case "heapof":
			// the field of all objects, by address: heapof(T.f)
			s, ok := e.Args[0].(*ast.SelectorExpr)
			if !ok {
				panic(serr("heapof"))
			}
			ty := types.NewPointer(sc.typ(s.X))
			p, _ := sc.fieldAddr(SVal{x.lift(c.Int(1), ty), ty}, s.Sel.Name)
			if p.kind != PLoc || len(p.path) > 0 {
				panic(serr("heapof %s", s.Sel.Name))
			}
			return SVal{x.comp(sc.cur, p.comp, x.ptrCompSort(p)), nil}
		case "calls":
			v := arg(0)
			f := sc.cloTerm(v)
			cnt := x.comp(sc.cur, "GH:calls", arr(SInt, SInt))
			return SVal{c.Select(cnt, f), tInt}
		case "called":
			f := sc.cloTerm(arg(0))
			k := argT(1)
			h := x.comp(sc.cur, "GH:callset:"+k.sort, arr(SInt, arr(k.sort, SBool)))
			return sc.boolV(c.Select(c.Select(h, f), k))
		case "captured":
			v := arg(0)
			f, ok := v.v.(*ClosureV)
			if !ok || f.fn == nil {
				panic(serr("captured of an unknown function"))
			}
			nm := strings.Trim(e.Args[1].(*ast.BasicLit).Value, "\"")
			for i, fv := range f.fn.FreeVars {
				if fv.Name() == nm {
					p := f.bindings[i].(*PtrV)
					if p.kind == PObj {
						return SVal{addrV{p}, p.elem}
					}
					return SVal{sc.load(sc.cur, p), p.elem}
				}
			}
			panic(serr("no captured variable %s", nm))
		case "nsent", "nreceived":
			cnt := x.comp(sc.cur, "GH:"+id.Name, arr(SInt, SInt))
			return SVal{c.Select(cnt, argT(0)), tInt}
		case "sent", "received":
			// sent(channel, number, type)
			ty := sc.typ(e.Args[2])
			srt := x.sortOf(ty)
			h := x.comp(sc.cur, "GH:"+id.Name+":"+srt, arr(SInt, arr(SInt, srt)))
			return SVal{x.lift(c.Select(c.Select(h, argT(0)), argT(1)), ty), ty}
		case "callarg", "callres":
			// callarg(fn, argument index, call number, type)
			f := sc.cloTerm(arg(0))
			i := argT(1)
			ty := sc.typ(e.Args[3])
			pre := "GH:arg"
			if id.Name == "callres" {
				pre = "GH:res"
			}
			srt := x.sortOf(ty)
			h := x.comp(sc.cur, fmt.Sprintf("%s%s:%s", pre, i.name, srt), arr(SInt, arr(SInt, srt)))
			return SVal{x.lift(c.Select(c.Select(h, f), argT(2)), ty), ty}
		case "ser", "serof", "desok", "desn", "desf":
			return sc.encCall(id.Name, e.Args)
		case "div":
			return SVal{c.Div(argT(0), argT(1)), tInt}
		case "mod":
			return SVal{c.Mod(argT(0), argT(1)), tInt}
		case "real":
			t := argT(0)
			if t.num != nil {
				return SVal{c.Real(t.num.String() + ".0"), types.Typ[types.Float64]}
			}
			return SVal{c.mk(Term{op: "to_real", args: []*Term{t}, sort: SReal}), types.Typ[types.Float64]}
		case "bslen":
			return SVal{c.App("bs-len", argT(0)), tInt}
		case "sha":
			// the SHA256 of the bytes given
			return SVal{x.sha(argT(0)), nil}
		case "hex":
			// the hexadecimal form of an array of bytes
			v := arg(0)
			a, ok := v.t.Underlying().(*types.Array)
			if !ok {
				panic(serr("hex of %s", v.t))
			}
			return SVal{x.hex(sc.term(v), a.Len()), types.Typ[types.String]}
		case "tag":
			return SVal{c.App("i-tag", argT(0)), tInt}
		case "as":
			// as(e, T): the same term, with a Go type
			ty := sc.typ(e.Args[1])
			t := argT(0)
			return SVal{x.lift(t, ty), ty}
		case "valueof":
			// a struct kept by address as a value
			v := arg(0)
			if a, ok := v.v.(addrV); ok {
				return SVal{sc.load(sc.cur, a.p), a.p.elem}
			}
			return v
		}
		if m, ok := x.w.macros[id.Name]; ok {
			if len(m.Params) != len(e.Args) {
				panic(serr("arguments of %s", m.Name))
			}
			n := *sc
			n.env = map[string]SVal{}
			for k, v := range sc.env {
				if strings.HasPrefix(k, "_") || strings.HasPrefix(k, "entry:") {
					n.env[k] = v
				}
			}
			for i, p := range m.Params {
				n.env[p] = arg(i)
			}
			if m.Pkg != "" {
				n.pkg = m.Pkg
			}
			return n.eval(m.Body)
		}
		if g, ok := x.w.ghosts[id.Name]; ok {
			h := x.comp(sc.cur, "GH:"+g.Name, arr(SInt, g.Sort))
			k := argT(0)
			if k.sort == SIface {
				k = c.App("i-val", k)
			}
			return SVal{c.Select(h, k), ghostType(g.Sort)}
		}
		if _, ok := c.funs[id.Name]; ok {
			var as []*Term
			for i := range e.Args {
				as = append(as, argT(i))
			}
			r := c.App(id.Name, as...)
			return SVal{r, ghostType(r.sort)}
		}
	}
	// a deterministic external function
	if se, ok := e.Fun.(*ast.SelectorExpr); ok {
		if id, ok := se.X.(*ast.Ident); ok {
			if _, bound := sc.env[id.Name]; !bound {
				if p := x.w.importOf(sc.pkg, id.Name); p != nil {
					if f, ok := p.Scope().Lookup(se.Sel.Name).(*types.Func); ok && isDet(p.Path()+"."+se.Sel.Name) {
						var ts []*Term
						sig := f.Type().(*types.Signature)
						for i := range e.Args {
							v := arg(i)
							t := sc.term(v)
							if t.sort == SSlice {
								t = x.seq(sc.cur, t, sig.Params().At(i).Type().Underlying().(*types.Slice).Elem())
							}
							ts = append(ts, t)
						}
						rt := sig.Results().At(0).Type()
						r := x.detTerm(sc.cur, p.Path()+"."+se.Sel.Name, 0, ts, rt)
						if _, ok := rt.Underlying().(*types.Slice); ok {
							return SVal{r, nil}
						}
						return SVal{r, rt}
					}
				}
			}
		}
	}
	// a conversion
	if t := x.w.resolveType(sc.pkg, e.Fun); t != nil && len(e.Args) == 1 {
		v := arg(0)
		tt := sc.term(v)
		if x.sortOf(t) == tt.sort {
			return SVal{x.lift(tt, t), t}
		}
		if x.sortOf(t) == SReal && tt.sort == SInt {
			a, _ := sc.unify(tt, c.Real("0.0"))
			return SVal{a, t}
		}
	}
	panic(serr("call of %s", exprStr(e.Fun)))
}

func ghostType(s Sort) types.Type {
	switch s {
	case SInt:
		return tInt
	case SBool:
		return tBool
	case SReal:
		return types.Typ[types.Float64]
	case SStr:
		return types.Typ[types.String]
	case SSlice:
		return nil
	}
	return nil
}

func (sc *scope) cloTerm(v SVal) *Term {
	if f, ok := v.v.(*ClosureV); ok && f.unknown != nil {
		return f.unknown
	}
	panic(serr("not an unknown function value"))
}

func (sc *scope) fieldAddr(v SVal, name string) (*PtrV, types.Type) {
	x := sc.x
	if a, ok := v.v.(addrV); ok {
		v = SVal{a.p, types.NewPointer(v.t)}
	}
	pkg := x.w.pkgByRel(sc.pkg)
	if n := namedOf(v.t); n != nil && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg()
	}
	_, path, _ := types.LookupFieldOrMethod(v.t, true, pkg, name)
	if path == nil {
		panic(serr("no field %s in %s", name, v.t))
	}
	p := x.asPtr(v.v, v.t)
	t := v.t.Underlying().(*types.Pointer).Elem()
	for n, i := range path {
		fp := x.fieldPtr(p, i)
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if n < len(path)-1 {
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				p = x.asPtr(sc.load(sc.cur, fp), ft)
				t = pt.Elem()
				continue
			}
		}
		p, t = fp, ft
	}
	return p, t
}

func (sc *scope) quant(kind string, e *ast.CallExpr) SVal {
	x, c := sc.x, sc.x.c
	// forall(x, T, P, triggers...)
	id := e.Args[0].(*ast.Ident)
	var srt Sort
	var ty types.Type
	if bl, ok := e.Args[1].(*ast.BasicLit); ok {
		srt = strings.Trim(bl.Value, "`\"")
		ty = ghostType(srt)
	} else {
		ty = sc.typ(e.Args[1])
		srt = x.sortOf(ty)
		if _, _, isInt := intRange(ty); isInt && ty == types.Typ[types.Int] {
			ty = tInt
		}
	}
	v := c.Var(id.Name, srt)
	n := *sc
	n.env = map[string]SVal{}
	for k, s := range sc.env {
		n.env[k] = s
	}
	n.env[id.Name] = SVal{x.lift(v, orInt(ty)), ty}
	if ty == nil {
		n.env[id.Name] = SVal{v, nil}
	}
	body := n.term(n.eval(e.Args[2]))
	if kind == "exists" {
		return sc.boolV(c.Exists([]*Term{v}, body))
	}
	var pats [][]*Term
	for _, p := range e.Args[3:] {
		pats = append(pats, []*Term{n.term(n.eval(p))})
	}
	if len(pats) == 0 && srt == SInt {
		body = x.c.atIndex(v, body)
	}
	return sc.boolV(c.Forall([]*Term{v}, body, pats...))
}

// atIndex changes the variable to the index that it is used in, if there is
// only one: for all i, P(a[i+k]) becomes for all j, P(a[j]) of i = j-k; this is
// found by matching where the other is not
func (c *Ctx) atIndex(v, body *Term) *Term {
	has := map[*Term]bool{}
	var idx []*Term
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if h, ok := has[t]; ok {
			return h
		}
		h := t == v
		for _, a := range t.args {
			if rec(a) {
				h = true
			}
		}
		if t.op == "select" && rec(t.args[1]) {
			idx = append(idx, t.args[1])
		}
		if t.op == "forall" || t.op == "exists" {
			idx = append(idx, nil)
		}
		has[t] = h
		return h
	}
	rec(body)
	if len(idx) == 0 {
		return body
	}
	for _, t := range idx {
		if t == nil || t != idx[0] {
			return body
		}
	}
	b, k := c.split(idx[0])
	if b == nil || b == v && k.Sign() == 0 {
		return body
	}
	off := c.Big(k)
	if b != v {
		if b.op != "+" || len(b.args) != 2 {
			return body
		}
		switch {
		case b.args[0] == v && !has[b.args[1]]:
			off = c.Add(b.args[1], off)
		case b.args[1] == v && !has[b.args[0]]:
			off = c.Add(b.args[0], off)
		default:
			return body
		}
	}
	return c.Subst(body, map[*Term]*Term{v: c.Sub(v, off)})
}

func orInt(t types.Type) types.Type {
	if t == nil {
		return tInt
	}
	return t
}

// havocLoc forgets a location of a modifies clause. Forms: p.f, p.f[*] (map or
// slice contents), *p (all fields), ghost(x), x[*]
func (x *Exec) havocLoc(st, pre *State, env map[string]SVal, m Clause, ct *Contract) {
	for _, l := range x.locations(pre, env, m, ct) {
		h := x.comp(st, l.comp, x.compSort[l.comp])
		if l.ref == nil {
			st.heap[l.comp] = x.c.Fresh("hv", h.sort)
			st.logWrite(l.comp, nil)
			continue
		}
		_, es := arrElems(h.sort)
		x.setComp(st, l.comp, l.ref, x.c.Store(h, l.ref, x.c.Fresh("hv", es)))
	}
}

type location struct {
	comp string
	ref  *Term // nil: every reference
}

func (x *Exec) locations(st *State, env map[string]SVal, m Clause, ct *Contract) (out []location) {
	sc := &scope{x: x, cur: x.view(st, st), old: st, env: env, pkg: ct.Pkg}
	switch e := m.Expr.(type) {
	case *ast.Ident:
		if e.Name == "everything" {
			for _, n := range x.compOrd {
				out = append(out, location{n, nil})
			}
			return
		}
		panic(serr("modifies %s", m.Text))
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := env[id.Name]; !bound {
				// T.f: the field of every object
				t := x.w.resolveType(sc.pkg, e.X)
				if t != nil {
					s := t.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == e.Sel.Name {
							n, srt, _ := x.fieldComp(t, i)
							x.comp(st, n, srt)
							return []location{{n, nil}}
						}
					}
				}
			}
		}
		p, ft := sc.fieldAddr(sc.eval(e.X), e.Sel.Name)
		return x.ptrLocs(st, p, ft)
	case *ast.StarExpr:
		v := sc.eval(e.X)
		p := x.asPtr(v.v, v.t)
		return x.ptrLocs(st, p, p.elem)
	case *ast.IndexExpr:
		v := sc.eval(e.X)
		switch u := v.t.Underlying().(type) {
		case *types.Map:
			d, vv, l, ks, vs := x.mapComps(u)
			x.comp(st, d, arr(SInt, arr(ks, SBool)))
			x.comp(st, vv, arr(SInt, arr(ks, vs)))
			x.comp(st, l, arr(SInt, SInt))
			r := sc.term(v)
			return []location{{d, r}, {vv, r}, {l, r}}
		case *types.Slice:
			n, srt := x.elemComp(u.Elem())
			x.comp(st, n, srt)
			return []location{{n, x.c.App("s-ref", sc.term(v))}}
		}
	case *ast.CallExpr:
		id := e.Fun.(*ast.Ident)
		if g, ok := x.w.ghosts[id.Name]; ok {
			n := "GH:" + g.Name
			x.comp(st, n, arr(SInt, g.Sort))
			if a, ok := e.Args[0].(*ast.Ident); ok && a.Name == "all" {
				return []location{{n, nil}}
			}
			k := sc.term(sc.eval(e.Args[0]))
			if k.sort == SIface {
				k = x.c.App("i-val", k)
			}
			return []location{{n, k}}
		}
		if id.Name == "allof" {
			// allof(T): every field of every object of type T
			t := sc.typ(e.Args[0])
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := isStruct(s.Field(i).Type()); ok {
					continue
				}
				n, srt, _ := x.fieldComp(t, i)
				x.comp(st, n, srt)
				out = append(out, location{n, nil})
			}
			return
		}
	}
	panic(serr("modifies %s", m.Text))
}

func (x *Exec) ptrLocs(st *State, p *PtrV, t types.Type) (out []location) {
	if p.kind == PObj {
		s, _ := isStruct(p.elem)
		for i := 0; i < s.NumFields(); i++ {
			fp := x.fieldPtr(p, i)
			out = append(out, x.ptrLocs(st, fp, s.Field(i).Type())...)
		}
		return
	}
	x.comp(st, p.comp, x.ptrCompSort(p))
	return []location{{p.comp, p.ref}}
}
