package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT-LIB sort, as text.
type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SReal  Sort = "Real"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SBS    Sort = "BS"
)

func arr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrElems splits "(Array K V)"
func arrElems(s Sort) (k, v Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // "#lit", "#sym", "#var", "forall", "exists", or an SMT function
	name  string // symbol name or literal text
	args  []*Term
	sort  Sort
	num   *big.Int // numeral value
	vars  []*Term
	pats  [][]*Term
	bound bool // has free bound variables
	qf    bool // contains a quantifier
}

// Ctx owns terms and declarations of one verification unit.
type Ctx struct {
	tab    map[string]*Term
	terms  []*Term
	funs   map[string]*FunDecl
	dts    map[string]*DT
	dtOrd  []string
	sorts  map[string]bool // uninterpreted sorts
	sortO  []string
	axioms []*Axiom
	nfresh int
}

type FunDecl struct {
	name string
	args []Sort
	ret  Sort
	def  string // raw definition (define-fun), optional
	deps []string
}

type DT struct {
	name   string
	ctor   string
	fields []DTField
}

type DTField struct {
	name string
	sort Sort
}

// Axiom is a raw assertion included when one of its trigger functions is used.
type Axiom struct {
	trig []string
	term *Term
	raw  string
	note string
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]*FunDecl{}, dts: map[string]*DT{}, sorts: map[string]bool{}}
	c.usort(SStr)
	c.datatype("Slice", "mk-slice", []DTField{{"s-ref", SInt}, {"s-off", SInt}, {"s-len", SInt}, {"s-cap", SInt}})
	c.datatype("Iface", "mk-iface", []DTField{{"i-tag", SInt}, {"i-val", SInt}})
	c.datatype("BS", "mk-bs", []DTField{{"bs-len", SInt}, {"bs-data", arr(SInt, SInt)}})
	return c
}

func (c *Ctx) usort(s string) {
	if !c.sorts[s] {
		c.sorts[s] = true
		c.sortO = append(c.sortO, s)
	}
}

func (c *Ctx) datatype(name, ctor string, fields []DTField) *DT {
	if d, ok := c.dts[name]; ok {
		return d
	}
	d := &DT{name, ctor, fields}
	c.dts[name] = d
	c.dtOrd = append(c.dtOrd, name)
	c.funs[ctor] = &FunDecl{name: ctor, ret: name}
	for _, f := range fields {
		c.funs[f.name] = &FunDecl{name: f.name, args: []Sort{name}, ret: f.sort}
	}
	return d
}

func (c *Ctx) fun(name string, ret Sort, args ...Sort) string {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = &FunDecl{name: name, args: args, ret: ret}
	}
	return name
}

func (c *Ctx) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(t.sort)
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, v := range t.vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, ps := range t.pats {
		b.WriteByte(':')
		for _, p := range ps {
			fmt.Fprintf(&b, " %d", p.id)
		}
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	n := new(Term)
	*n = t
	n.id = len(c.terms)
	switch t.op {
	case "#var":
		n.bound = true
	case "forall", "exists":
		// bound if the body has other free variables; approximated by
		// computing the free variables
		n.qf = true
		fv := map[*Term]bool{}
		freeVars(t.args[0], fv, map[*Term]bool{})
		for _, v := range t.vars {
			delete(fv, v)
		}
		n.bound = len(fv) > 0
	default:
		for _, a := range t.args {
			if a.bound {
				n.bound = true
			}
			if a.qf {
				n.qf = true
			}
		}
	}
	c.terms = append(c.terms, n)
	c.tab[k] = n
	return n
}

func freeVars(t *Term, out, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "#var" {
		out[t] = true
		return
	}
	inner := map[*Term]bool{}
	if t.op == "forall" || t.op == "exists" {
		freeVars(t.args[0], inner, map[*Term]bool{})
		for _, v := range t.vars {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
}

func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	return c.mk(Term{op: "#lit", name: n.String(), sort: SInt, num: n})
}
func (c *Ctx) Bool(b bool) *Term {
	return c.mk(Term{op: "#lit", name: fmt.Sprint(b), sort: SBool})
}
func (c *Ctx) Real(s string) *Term { return c.mk(Term{op: "#lit", name: s, sort: SReal}) }

func (c *Ctx) Sym(name string, s Sort) *Term {
	if f, ok := c.funs[name]; ok {
		if f.ret != s {
			panic(fmt.Sprintf("symbol %s: sort %s vs %s", name, f.ret, s))
		}
	} else {
		c.funs[name] = &FunDecl{name: name, ret: s}
	}
	return c.mk(Term{op: "#sym", name: name, sort: s})
}

func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.nfresh++
	return c.Sym(fmt.Sprintf("%s!%d", sanitize(prefix), c.nfresh), s)
}

func (c *Ctx) Var(name string, s Sort) *Term {
	c.nfresh++
	return c.mk(Term{op: "#var", name: fmt.Sprintf("%s?%d", sanitize(name), c.nfresh), sort: s})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', strings.ContainsRune("_.-!?$@", r):
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// App applies a declared function (datatype constructor, selector, or
// uninterpreted function).
func (c *Ctx) App(f string, args ...*Term) *Term {
	d, ok := c.funs[f]
	if !ok {
		panic("undeclared function " + f)
	}
	// selector of constructor
	if len(args) == 1 {
		if dt, ok := c.dts[args[0].sort]; ok {
			for i, fl := range dt.fields {
				if fl.name == f {
					if args[0].op == dt.ctor {
						return args[0].args[i]
					}
					if args[0].op == "ite" {
						a := args[0]
						if a.args[1].op == dt.ctor || a.args[2].op == dt.ctor {
							return c.Ite(a.args[0], c.App(f, a.args[1]), c.App(f, a.args[2]))
						}
					}
				}
			}
		}
	}
	return c.mk(Term{op: f, args: args, sort: d.ret})
}

func (c *Ctx) isTrue(t *Term) bool  { return t.op == "#lit" && t.name == "true" }
func (c *Ctx) isFalse(t *Term) bool { return t.op == "#lit" && t.name == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case c.isTrue(a):
		return c.Bool(false)
	case c.isFalse(a):
		return c.Bool(true)
	case a.op == "not":
		return a.args[0]
	case a.op == "<":
		return c.Le(a.args[1], a.args[0])
	case a.op == "<=":
		return c.Lt(a.args[1], a.args[0])
	}
	return c.mk(Term{op: "not", args: []*Term{a}, sort: SBool})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if c.isFalse(a) {
			return a
		}
		if c.isTrue(a) || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.Bool(false)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(true)
	case 1:
		return out[0]
	}
	return c.mk(Term{op: "and", args: out, sort: SBool})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if c.isTrue(a) {
			return a
		}
		if c.isFalse(a) || seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.Bool(true)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(false)
	case 1:
		return out[0]
	}
	return c.mk(Term{op: "or", args: out, sort: SBool})
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if c.isTrue(a) {
		return b
	}
	if c.isFalse(a) || c.isTrue(b) || a == b {
		return c.Bool(true)
	}
	if c.isFalse(b) {
		return c.Not(a)
	}
	return c.mk(Term{op: "=>", args: []*Term{a, b}, sort: SBool})
}

func (c *Ctx) Ite(a, b, d *Term) *Term {
	if c.isTrue(a) || b == d {
		return b
	}
	if c.isFalse(a) {
		return d
	}
	if b.op == "ite" && b.args[0] == a {
		return c.Ite(a, b.args[1], d)
	}
	if d.op == "ite" && d.args[0] == a {
		return c.Ite(a, b, d.args[2])
	}
	if b.sort != d.sort {
		panic(fmt.Sprintf("ite sorts %s %s", b.sort, d.sort))
	}
	if b.sort == SBool {
		if c.isTrue(b) && c.isFalse(d) {
			return a
		}
		if c.isFalse(b) && c.isTrue(d) {
			return c.Not(a)
		}
	}
	return c.mk(Term{op: "ite", args: []*Term{a, b, d}, sort: b.sort})
}

// linear form base + k
func (c *Ctx) split(t *Term) (base *Term, k *big.Int) {
	if t.num != nil {
		return nil, t.num
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].num != nil {
		return t.args[0], t.args[1].num
	}
	return t, new(big.Int)
}

// diseq reports whether a and b are syntactically known to differ
func (c *Ctx) diseq(a, b *Term) bool {
	if a.op == "#lit" && b.op == "#lit" {
		return a.name != b.name
	}
	if a.sort == SInt {
		ba, ka := c.split(a)
		bb, kb := c.split(b)
		if ba == bb && ka.Cmp(kb) != 0 {
			return true
		}
	}
	if dt, ok := c.dts[a.sort]; ok && a.op == dt.ctor && b.op == dt.ctor {
		for i := range a.args {
			if c.diseq(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if a.sort == SInt {
		sa, sb := strings.HasPrefix(a.op, "sub."), strings.HasPrefix(b.op, "sub.")
		switch {
		case sa && sb && a.op != b.op:
			return true
		case sa && sb:
			return c.diseq(a.args[0], b.args[0])
		case sa && b.num != nil && b.num.Sign() >= 0, sb && a.num != nil && a.num.Sign() >= 0:
			return true
		}
	}
	if strings.HasPrefix(a.name, "str$") && strings.HasPrefix(b.name, "str$") && a.op == "#sym" && b.op == "#sym" {
		return a != b
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.Bool(true)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s (%s, %s)", a.sort, b.sort, c.show(a), c.show(b)))
	}
	if c.diseq(a, b) {
		return c.Bool(false)
	}
	if a.sort == SBool {
		if c.isTrue(a) {
			return b
		}
		if c.isTrue(b) {
			return a
		}
		if c.isFalse(a) {
			return c.Not(b)
		}
		if c.isFalse(b) {
			return c.Not(a)
		}
	}
	if dt, ok := c.dts[a.sort]; ok && a.op == dt.ctor && b.op == dt.ctor {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	// (ite p x y) = z with decidable branches
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == "ite" {
			x, y, z := p[0].args[1], p[0].args[2], p[1]
			dec := func(u *Term) bool { return u == z || c.diseq(u, z) }
			if dec(x) && dec(y) {
				return c.Ite(p[0].args[0], c.Eq(x, z), c.Eq(y, z))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: "=", args: []*Term{a, b}, sort: SBool})
}

func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Add(a, b *Term) *Term {
	if a.sort == SReal {
		return c.mk(Term{op: "+", args: []*Term{a, b}, sort: SReal})
	}
	ba, ka := c.split(a)
	bb, kb := c.split(b)
	k := new(big.Int).Add(ka, kb)
	var base *Term
	switch {
	case ba == nil && bb == nil:
		return c.Big(k)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		// (x - y) + y
		if ba.op == "-" && len(ba.args) == 2 && ba.args[1] == bb {
			return c.Add(ba.args[0], c.Big(k))
		}
		if bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ba {
			return c.Add(bb.args[0], c.Big(k))
		}
		if ba.id > bb.id {
			ba, bb = bb, ba
		}
		base = c.mk(Term{op: "+", args: []*Term{ba, bb}, sort: SInt})
		if bb.num != nil {
			panic("add")
		}
	}
	if k.Sign() == 0 {
		return base
	}
	return c.mk(Term{op: "+", args: []*Term{base, c.Big(k)}, sort: SInt})
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return c.mk(Term{op: "-", args: []*Term{a, b}, sort: SReal})
	}
	ba, ka := c.split(a)
	bb, kb := c.split(b)
	k := new(big.Int).Sub(ka, kb)
	if ba == bb {
		return c.Big(k)
	}
	if bb == nil {
		return c.Add(ba, c.Big(k))
	}
	var base *Term
	if ba == nil {
		base = c.mk(Term{op: "-", args: []*Term{c.Int(0), bb}, sort: SInt})
	} else {
		// (x + y) - y
		if ba.op == "+" && len(ba.args) == 2 {
			if ba.args[0] == bb {
				return c.Add(ba.args[1], c.Big(k))
			}
			if ba.args[1] == bb {
				return c.Add(ba.args[0], c.Big(k))
			}
		}
		base = c.mk(Term{op: "-", args: []*Term{ba, bb}, sort: SInt})
	}
	return c.Add(base, c.Big(k))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return c.mk(Term{op: "*", args: []*Term{a, b}, sort: SReal})
	}
	if a.num != nil && b.num != nil {
		return c.Big(new(big.Int).Mul(a.num, b.num))
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].num != nil {
			if p[0].num.Sign() == 0 {
				return p[0]
			}
			if p[0].num.Cmp(big.NewInt(1)) == 0 {
				return p[1]
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: "*", args: []*Term{a, b}, sort: SInt})
}

// Div and Mod are SMT-LIB (euclidean) div and mod
func (c *Ctx) Div(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() != 0 {
		q, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		_ = m
		return c.Big(q)
	}
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk(Term{op: "div", args: []*Term{a, b}, sort: SInt})
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return c.Big(m)
	}
	return c.mk(Term{op: "mod", args: []*Term{a, b}, sort: SInt})
}

func (c *Ctx) Lt(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return c.Bool(a.num.Cmp(b.num) < 0)
	}
	if a == b {
		return c.Bool(false)
	}
	if a.sort == SInt {
		ba, ka := c.split(a)
		bb, kb := c.split(b)
		if ba == bb {
			return c.Bool(ka.Cmp(kb) < 0)
		}
	}
	return c.mk(Term{op: "<", args: []*Term{a, b}, sort: SBool})
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return c.Bool(a.num.Cmp(b.num) <= 0)
	}
	if a == b {
		return c.Bool(true)
	}
	if a.sort == SInt {
		ba, ka := c.split(a)
		bb, kb := c.split(b)
		if ba == bb {
			return c.Bool(ka.Cmp(kb) <= 0)
		}
	}
	return c.mk(Term{op: "<=", args: []*Term{a, b}, sort: SBool})
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.diseq(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "const-array" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store") && !a.bound {
		x, y := c.Select(a.args[1], i), c.Select(a.args[2], i)
		return c.Ite(a.args[0], x, y)
	}
	if i.op == "ite" && a.op == "store" && !i.bound {
		x, y := c.Select(a, i.args[1]), c.Select(a, i.args[2])
		if x.op != "select" || y.op != "select" {
			return c.Ite(i.args[0], x, y)
		}
	}
	k, v := arrElems(a.sort)
	if i.sort != k {
		panic(fmt.Sprintf("select: index sort %s, array %s: %s[%s]", i.sort, a.sort, c.show(a), c.show(i)))
	}
	return c.mk(Term{op: "select", args: []*Term{a, i}, sort: v})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	k, e := arrElems(a.sort)
	if i.sort != k || v.sort != e {
		panic(fmt.Sprintf("store: %s [%s] := %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(Term{op: "const-array", args: []*Term{v}, sort: s})
}

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if c.isTrue(body) || c.isFalse(body) {
		return body
	}
	fv := map[*Term]bool{}
	freeVars(body, fv, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	if len(vs) != len(vars) {
		pats = nil
	}
	var good [][]*Term
	for _, ps := range pats {
		ok := true
		for _, p := range ps {
			ok = ok && !hasIte(p, map[*Term]bool{})
		}
		if ok {
			good = append(good, ps)
		}
	}
	pats = good
	return c.mk(Term{op: "forall", args: []*Term{body}, sort: SBool, vars: vs, pats: pats})
}

// hasIte is whether a term can't be a pattern
func hasIte(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == "ite" || t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if hasIte(a, seen) {
			return true
		}
	}
	return false
}

func (c *Ctx) Exists(vars []*Term, body *Term) *Term {
	fv := map[*Term]bool{}
	freeVars(body, fv, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return c.mk(Term{op: "exists", args: []*Term{body}, sort: SBool, vars: vs})
}

// Subst replaces bound variables
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if x, ok := m[t]; ok {
			return x
		}
		if len(t.args) == 0 {
			return t
		}
		if x, ok := memo[t]; ok {
			return x
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		if !ch {
			memo[t] = t
			return t
		}
		r := c.rebuild(t, args, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Imp(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "+":
		return c.Add(args[0], args[1])
	case "-":
		return c.Sub(args[0], args[1])
	case "*":
		return c.Mul(args[0], args[1])
	case "div":
		if t.sort == SInt {
			return c.Div(args[0], args[1])
		}
	case "mod":
		return c.Mod(args[0], args[1])
	case "<":
		return c.Lt(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, ps := range t.pats {
			var q []*Term
			for _, p := range ps {
				q = append(q, rec(p))
			}
			pats = append(pats, q)
		}
		if t.op == "exists" {
			return c.Exists(t.vars, args[0])
		}
		return c.Forall(t.vars, args[0], pats...)
	}
	if d, ok := c.funs[t.op]; ok {
		if _, ok := c.dts[d.ret]; ok || len(args) == 1 {
			return c.App(t.op, args...)
		}
	}
	n := *t
	n.args = args
	return c.mk(n)
}

//
// printing
//

func lit(t *Term) string {
	if t.sort == SInt && t.num != nil && t.num.Sign() < 0 {
		return "(- " + new(big.Int).Neg(t.num).String() + ")"
	}
	return t.name
}

func quote(s string) string {
	return "|" + s + "|"
}

func isPlain(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_-+*/<>=.!?@$%&~^", r)) {
			return false
		}
	}
	return true
}

func symName(s string) string {
	if isPlain(s) {
		return s
	}
	return quote(s)
}

type printer struct {
	c     *Ctx
	named map[*Term]string
	refs  map[*Term]int
	funs  map[string]bool
	defs  strings.Builder
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	switch t.op {
	case "#lit", "#var":
	case "#sym":
		p.funs[t.name] = true
	default:
		if _, ok := p.c.funs[t.op]; ok {
			p.funs[t.op] = true
		}
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, q := range ps {
			p.count(q)
		}
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case "#lit":
		return lit(t)
	case "#sym", "#var":
		return symName(t.name)
	case "const-array":
		s = fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(&b, "(%s %s)", symName(v.name), v.sort)
		}
		b.WriteString(") ")
		body := p.str(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.pats {
				b.WriteString(" :pattern (")
				for i, q := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(q))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		s = b.String()
	default:
		if len(t.args) == 0 {
			return symName(t.op)
		}
		var b strings.Builder
		b.WriteString("(" + opName(t.op))
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(p.str(a))
		}
		b.WriteByte(')')
		s = b.String()
	}
	if p.refs[t] > 1 && !t.bound {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.named[t] = n
		return n
	}
	return s
}

func opName(s string) string {
	switch s {
	case "and", "or", "not", "=>", "ite", "=", "+", "-", "*", "/", "div", "mod", "<", "<=", "select", "store", "to_real", "to_int":
		return s
	}
	if strings.HasPrefix(s, "(_") {
		return s
	}
	return symName(s)
}

// Script prints a complete check-sat script with the given assertions
func (c *Ctx) Script(asserts []*Term, opts string) string {
	p := &printer{c: c, named: map[*Term]string{}, refs: map[*Term]int{}, funs: map[string]bool{}}
	for _, a := range asserts {
		p.count(a)
	}
	// axioms to a fixpoint
	used := map[*Axiom]bool{}
	var axs []*Axiom
	for {
		ch := false
		for _, ax := range c.axioms {
			if used[ax] {
				continue
			}
			hit := len(ax.trig) == 0
			for _, f := range ax.trig {
				if p.funs[f] {
					hit = true
				}
			}
			if hit {
				used[ax] = true
				axs = append(axs, ax)
				ch = true
				if ax.term != nil {
					p.count(ax.term)
				}
				for _, f := range rawNames(ax.raw) {
					if _, ok := c.funs[f]; ok {
						p.funs[f] = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	var body strings.Builder
	for _, ax := range axs {
		if ax.term != nil {
			s := p.str(ax.term)
			body.WriteString(p.defs.String())
			p.defs.Reset()
			body.WriteString("(assert " + s + ")\n")
		} else {
			body.WriteString(ax.raw + "\n")
		}
	}
	for _, a := range asserts {
		s := p.str(a)
		body.WriteString(p.defs.String())
		p.defs.Reset()
		body.WriteString("(assert " + s + ")\n")
	}
	var out strings.Builder
	out.WriteString(opts)
	out.WriteString(c.decls(p.funs))
	var strs []string
	for f := range p.funs {
		if strings.HasPrefix(f, "str$") {
			strs = append(strs, symName(f))
		}
	}
	if len(strs) > 1 {
		sort.Strings(strs)
		out.WriteString("(assert (distinct " + strings.Join(strs, " ") + "))\n")
	}
	out.WriteString(body.String())
	return out.String()
}

// rawNames are the names in an axiom given as text
func rawNames(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
}

func (c *Ctx) decls(used map[string]bool) string {
	var out strings.Builder
	for _, s := range c.sortO {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", symName(s))
	}
	for _, n := range c.dtOrd {
		out.WriteString(c.dtDecl(n))
	}
	out.WriteString(c.funDecls(used))
	return out.String()
}

func (c *Ctx) dtDecl(n string) string {
	var out strings.Builder
	d := c.dts[n]
	fmt.Fprintf(&out, "(declare-datatypes ((%s 0)) (((%s", symName(d.name), symName(d.ctor))
	for _, f := range d.fields {
		fmt.Fprintf(&out, " (%s %s)", symName(f.name), f.sort)
	}
	out.WriteString("))))\n")
	return out.String()
}

func (c *Ctx) isDTFun(n string) bool {
	f := c.funs[n]
	if d, ok := c.dts[f.ret]; ok && d.ctor == n {
		return true
	}
	if len(f.args) == 1 {
		if dt, ok := c.dts[f.args[0]]; ok {
			for _, fl := range dt.fields {
				if fl.name == n {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) funDecls(used map[string]bool) string {
	var out strings.Builder
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[string]bool{}
	var emit func(n string)
	emit = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		f := c.funs[n]
		if f == nil {
			panic("emit " + n)
		}
		if c.isDTFun(n) {
			return
		}
		for _, d := range f.deps {
			emit(d)
		}
		if f.def != "" {
			out.WriteString(f.def + "\n")
			return
		}
		fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", symName(n), strings.Join(f.args, " "), f.ret)
	}
	for _, n := range names {
		emit(n)
	}
	return out.String()
}

func (c *Ctx) show(t *Term) string {
	p := &printer{c: c, named: map[*Term]string{}, refs: map[*Term]int{}, funs: map[string]bool{}}
	s := p.str(t)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
