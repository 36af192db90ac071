package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one function
type Result struct {
	Unreadable bool // the contract does not fit the source
	Ct         *Contract
	Obls       []*Obligation
	Trusted    []string
	Used       []string
	Inlined    []string
	Invs       []string
	Paths      int
	Returns    int
	Err        string
	Vacuous    string
	Wall       float64
	Pos        string
}

func (r *Result) Label() string { return r.Ct.Name + r.Ct.Tag }

func (r *Result) Failed() (fs []*Obligation) {
	for _, o := range r.Obls {
		if o.Status != "proved" {
			fs = append(fs, o)
		}
	}
	return
}

func (r *Result) OK() bool { return r.Err == "" && r.Vacuous == "" && len(r.Failed()) == 0 }

func newExec(w *World, ct *Contract, fn *ssa.Function) *Exec {
	c := NewCtx()
	x := &Exec{w: w, c: c, ct: ct, fn: fn, compSort: map[string]Sort{}, strs: map[*Term]string{}, tags: map[string]int{}, tagTypes: map[int]types.Type{},
		toks: map[string]*Term{}, tokVal: map[*Term]Val{}, canonAx: map[*Term]bool{}, canon: map[*Term]int64{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{},
		dropped: map[string]bool{}, invs: map[string]bool{}, hints: map[string]bool{}, cellName: map[int]string{}, cellType: map[int]types.Type{}, pmemo: map[string]bool{}, gset: map[string]bool{}, gvals: map[string]*Term{}}
	var obls []*Obligation
	x.obls = &obls
	x.maxPaths = w.maxPaths
	if ct.MaxPaths > 0 {
		x.maxPaths = ct.MaxPaths
	}
	x.sol = NewSession(c)
	x.preludes()
	return x
}

// preludes declares the SMT functions and axioms of the specification files
func (x *Exec) preludes() {
	c := x.c
	for _, s := range x.w.smtfuns {
		// name (sorts) sort
		i, j := strings.IndexByte(s, '('), 0
		depth := 0
		for k := i; k < len(s); k++ {
			if s[k] == '(' {
				depth++
			}
			if s[k] == ')' {
				depth--
				if depth == 0 {
					j = k
					break
				}
			}
		}
		name := strings.TrimSpace(s[:i])
		c.fun(name, strings.TrimSpace(s[j+1:]), splitSorts(s[i+1:j])...)
	}
	for _, a := range x.w.rawAxioms {
		// trigger functions : smt text
		i := strings.IndexByte(a, ':')
		ax := &Axiom{trig: splitNames(a[:i]), raw: "(assert " + strings.TrimSpace(a[i+1:]) + ")", note: a}
		c.axioms = append(c.axioms, ax)
		for _, f := range rawNames(ax.raw) {
			if f == "shift.Int" {
				x.shift(c.Sym("shift.a", arr(SInt, SInt)), c.Sym("shift.o", SInt), c.Sym("shift.n", SInt))
			}
		}
	}
}

func splitSorts(s string) (out []Sort) {
	depth, start := 0, -1
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' && depth == 0 {
			if start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
			continue
		}
		if start < 0 {
			start = i
		}
		if s[i] == '(' {
			depth++
		}
		if s[i] == ')' {
			depth--
		}
	}
	return
}

func keysOf(m map[string]bool) (ks []string) {
	ks = []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// Verify generates and discharges the obligations of one contract
func (w *World) Verify(ct *Contract) (res *Result) {
	t0 := time.Now()
	res = &Result{Ct: ct}
	defer func() { res.Wall = time.Since(t0).Seconds() }()
	fn := w.fns[ct.Name]
	if fn == nil {
		res.Err = "no function " + ct.Name + " in the source"
		res.Unreadable = true
		return
	}
	if len(fn.Blocks) == 0 {
		res.Err = "function " + ct.Name + " has no body"
		return
	}
	p := w.fset.Position(fn.Pos())
	res.Pos = strings.TrimPrefix(p.Filename, "/repo/") + fmt.Sprintf(":%d", p.Line)
	x := newExec(w, ct, fn)
	defer x.sol.Close()
	var pre []*Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case unsupported:
					res.Err = r.Error()
				case specErr:
					res.Err = r.Error()
					res.Unreadable = true
				case pathStop:
				default:
					if verbosePanic {
						panic(r)
					}
					res.Err = fmt.Sprintf("tool error: %v", r)
				}
			}
		}()
		pre = x.verifyTop()
	}()
	res.Trusted, res.Used, res.Inlined, res.Invs = keysOf(x.trusted), keysOf(x.used), keysOf(x.inlined), keysOf(x.invs)
	res.Paths, res.Returns = x.paths+1, x.ends
	res.Obls = *x.obls
	if res.Err != "" {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if verbosePanic {
				panic(r)
			}
			res.Err = fmt.Sprintf("tool error: %v", r)
		}
	}()
	// discharge
	type job struct {
		sc string
		os []*Obligation
	}
	jobs := map[string]*job{}
	var order []*job
	for _, o := range res.Obls {
		if o.Status != "" {
			continue
		}
		if x.c.isTrue(o.goal) {
			o.Status, o.Solver = "proved", "simplifier"
			continue
		}
		if !o.goal.qf && x.sol.entailsPC(o.pc, o.goal) {
			o.Status, o.Solver = "proved", x.sol.name
			continue
		}
		sc := x.script(o.pc, o.goal)
		j := jobs[sc]
		if j == nil {
			j = &job{sc: sc}
			jobs[sc] = j
			order = append(order, j)
		}
		j.os = append(j.os, o)
	}
	var wg sync.WaitGroup
	for _, j := range order {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			x.dischargeScript(j.os[0], j.sc, w.oblMS)
			if dumpDir != "" && j.os[0].Status != "proved" {
				dump(j.os[0].Name, j.sc)
			}
			for _, o := range j.os[1:] {
				o.Status, o.Solver, o.Model = j.os[0].Status, j.os[0].Solver, j.os[0].Model
			}
		}(j)
	}
	// vacuity: the precondition, and at least one return, must be satisfiable
	var covers [][]*Term
	covers = append(covers, pre)
	for i, s := range x.covers {
		if i < 6 || os.Getenv("GOCV_DEBUG") != "" {
			covers = append(covers, s.pc)
		}
	}
	un := make([]bool, len(covers))
	for i, pc := range covers {
		sc := x.script(pc, nil)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			un[i] = oneShot(backends[0], sc, 1000, false).Result == "unsat"
			if dumpDir != "" {
				dump(fmt.Sprintf("cover-%s-%d", shortFn(fn), i), sc)
			}
			if i > 0 {
				debugf("cover %d: unsat %v, path %v", i, un[i], x.covers[i-1].trace)
			}
		}(i)
	}
	wg.Wait()
	if un[0] {
		res.Vacuous = "the precondition is unsatisfiable"
	} else if len(un) > 1 {
		all := true
		for _, u := range un[1:] {
			all = all && u
		}
		if all {
			res.Vacuous = "no return is reachable under the precondition"
		}
	}
	if x.ends == 0 && !ct.PanicsOK {
		res.Vacuous = "no return reached"
	}
	return
}

var verbosePanic bool
var dumpDir string

func (x *Exec) verifyTop() (pre []*Term) {
	c, fn, ct := x.c, x.fn, x.ct
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}, known: map[int]bool{}}
	st.next = c.Sym("next0", SInt)
	x.assume(st, c.Le(c.Int(1), st.next))
	x.next0 = st.next
	env := map[string]SVal{}
	var args []Val
	names := ct.Params
	if len(names) != len(fn.Params) {
		panic(serr("%s has %d parameters, the contract names %d", ct.Name, len(fn.Params), len(names)))
	}
	for i, p := range fn.Params {
		t := c.Sym("p."+names[i], x.sortOf(p.Type()))
		if a, ok := p.Type().Underlying().(*types.Array); ok {
			x.canon[t] = a.Len()
		}
		x.facts(st, t, p.Type())
		v := x.lift(t, p.Type())
		args = append(args, v)
		env[names[i]] = SVal{v, p.Type()}
	}
	nres := fn.Signature.Results().Len()
	if len(ct.Results) != nres {
		panic(serr("%s has %d results, the contract names %d", ct.Name, nres, len(ct.Results)))
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("captured value %s", fv.Name()))
		}
		et := pt.Elem()
		var ptr *PtrV
		if _, isS := isStruct(et); isS {
			r := c.Sym("p.&"+fv.Name(), SInt)
			x.assume(st, c.And(c.Lt(c.Int(0), r), c.Lt(r, st.next)))
			ptr = x.ptrTo(r, et)
		} else if _, isA := et.Underlying().(*types.Array); isA {
			r := c.Sym("p.&"+fv.Name(), SInt)
			x.assume(st, c.And(c.Lt(c.Int(0), r), c.Lt(r, st.next)))
			ptr = x.ptrTo(r, et)
		} else {
			t := c.Sym("p."+fv.Name(), x.sortOf(et))
			x.facts(st, t, et)
			id := x.newCell(st, x.lift(t, et))
			x.cellName[id], x.cellType[id] = fv.Name(), et
			ptr = &PtrV{kind: PCell, cell: id, elem: et}
		}
		binds = append(binds, ptr)
		env[fv.Name()] = SVal{varV{ptr}, et}
	}
	x.env0 = env
	x.preState = st
	for _, r := range ct.Requires {
		x.assume(st, x.evalSpecBool(st, st, env, r.Expr, ct))
	}
	x.setupGuards(st, env)
	x.preState = st.clone()
	pre = append(pre, st.pc...)
	x.preState.known = st.known
	st.frames = nil
	onRet := func(s *State, rv []Val) { x.atReturn(s, env, rv) }
	x.push(st, fn, binds, args, nil, onRet)
	x.explore(st)
	return
}

func (x *Exec) atReturn(st *State, env0 map[string]SVal, rv []Val) {
	ct := x.ct
	if x.mute > 0 {
		return
	}
	x.ends++
	if len(x.covers) < 8 {
		x.covers = append(x.covers, st.clone())
	}
	env := map[string]SVal{}
	for k, v := range env0 {
		env[k] = v
	}
	for i, v := range rv {
		env[ct.Results[i]] = SVal{v, x.fn.Signature.Results().At(i).Type()}
	}
	x.env0 = env0
	for _, e := range ct.Ensures {
		if p := labelProp(e.Name); p != "" && x.w.Prop != "" && p != x.w.Prop {
			continue // decides another property
		}
		g := x.evalSpecBool(st, x.preState, env, e.Expr, ct)
		x.oblige(st, "postcondition", "ensures "+e.Name, g)
		if e.Lemma {
			x.assume(st, g)
		}
	}
	x.locksAtReturn(st)
	if ct.HasFrame {
		x.checkFrame(st, env0)
	}
}

func (x *Exec) checkFrame(st *State, env map[string]SVal) {
	c, ct := x.c, x.ct
	all := map[string]bool{}
	refs := map[string][]*Term{}
	pre := x.preState
	for _, m := range ct.Modifies {
		for _, l := range x.locations(pre, env, m, ct) {
			if l.ref == nil {
				all[l.comp] = true
			} else {
				refs[l.comp] = append(refs[l.comp], l.ref)
			}
		}
	}
	for _, name := range sortedKeys(st.heap) {
		if strings.HasPrefix(name, "LK:") || all[name] || strings.HasPrefix(name, "GH:arg") || strings.HasPrefix(name, "GH:callset") || strings.HasPrefix(name, "GH:res") || name == "GH:calls" {
			continue
		}
		if strings.HasPrefix(name, "GH:") {
			if g := x.w.ghosts[name[3:]]; g == nil || g.Free {
				continue
			}
		}
		now := st.heap[name]
		old := x.comp(pre, name, now.sort)
		if now == old {
			continue
		}
		r := c.Fresh("frame", SInt)
		cond := []*Term{c.Lt(r, x.next0)}
		if _, ok := c.funs["obj-root"]; ok {
			cond = append(cond, c.Lt(c.App("obj-root", r), x.next0))
		}
		for _, a := range refs[name] {
			cond = append(cond, c.Neq(r, a))
		}
		x.oblige(st, "frame", "modifies only what is stated: "+name, c.Imp(c.And(cond...), c.Eq(c.Select(now, r), c.Select(old, r))))
	}
}

// labelProp is the property that a clause labelled Cnn_... is for
func labelProp(l string) string {
	if len(l) > 4 && l[0] == 'C' && l[3] == '_' {
		return l[:3]
	}
	return ""
}
