package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Session is an incremental solver used to prune branches and to discharge
// simple (ground) conditions. Quantified facts are left out, which is sound.
type Session struct {
	c      *Ctx
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	name   string
	stack  []*Term
	p      *printer
	emit   map[string]bool
	axDone map[*Axiom]bool
	sorts  int
	dts    int
	memo   map[string]bool
	nq     int
	dead   bool
	time   time.Duration
	strs   []*Term
}

var solverCalls int64
var solverNanos int64

func NewSession(c *Ctx) *Session {
	s := &Session{c: c, name: "z3-incremental", emit: map[string]bool{}, axDone: map[*Axiom]bool{}, memo: map[string]bool{}}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:2000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.stack = nil
	s.emit = map[string]bool{}
	s.axDone = map[*Axiom]bool{}
	s.sorts, s.dts = 0, 0
	s.strs = nil
	s.p = &printer{c: s.c, named: map[*Term]string{}, refs: map[*Term]int{}, funs: map[string]bool{}}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout 400)\n")
}

func (s *Session) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// decl sends the declarations needed by t
func (s *Session) text(t *Term) string {
	c := s.c
	s.p.refs = map[*Term]int{}
	s.p.count(t)
	for _, n := range c.sortO[s.sorts:] {
		fmt.Fprintf(s.in, "(declare-sort %s 0)\n", symName(n))
	}
	s.sorts = len(c.sortO)
	for _, n := range c.dtOrd[s.dts:] {
		io.WriteString(s.in, c.dtDecl(n))
	}
	s.dts = len(c.dtOrd)
	used := map[string]bool{}
	for f := range s.p.funs {
		if !s.emit[f] {
			used[f] = true
		}
	}
	for f := range used {
		s.emit[f] = true
		if strings.HasPrefix(f, "str$") {
			sy := c.Sym(f, SStr)
			s.strs = append(s.strs, sy)
		}
	}
	io.WriteString(s.in, c.funDecls(used))
	str := s.p.str(t)
	io.WriteString(s.in, s.p.defs.String())
	s.p.defs.Reset()
	return str
}

// ground axioms triggered by the functions used so far
func (s *Session) groundAxioms() {
	c := s.c
	for {
		ch := false
		for _, ax := range c.axioms {
			if s.axDone[ax] || ax.term == nil || ax.term.qf {
				continue
			}
			for _, f := range ax.trig {
				if s.emit[f] {
					s.axDone[ax] = true
					ch = true
					t := s.text(ax.term)
					s.popTo(0)
					fmt.Fprintf(s.in, "(assert %s)\n", t)
					break
				}
			}
		}
		if !ch {
			return
		}
	}
}

func (s *Session) popTo(n int) {
	if len(s.stack) > n {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
}

func (s *Session) sync(pc []*Term) {
	var g []*Term
	for _, t := range pc {
		if !t.qf && !t.bound {
			g = append(g, t)
		}
	}
	for _, t := range g {
		s.text(t)
	}
	s.groundAxioms()
	k := 0
	for k < len(g) && k < len(s.stack) && g[k] == s.stack[k] {
		k++
	}
	s.popTo(k)
	for _, t := range g[k:] {
		str := s.text(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", str)
		s.stack = append(s.stack, t)
	}
}

func (s *Session) entails(x *Exec, st *State, cond *Term) bool {
	if s.c.isTrue(cond) {
		return true
	}
	if cond.bound {
		return false
	}
	return s.entailsPC(st.pc, cond)
}

func (s *Session) entailsPC(pc []*Term, cond *Term) bool {
	c := s.c
	if c.isTrue(cond) {
		return true
	}
	if cond.qf || cond.bound {
		return false
	}
	// syntactic
	for _, t := range pc {
		if t == cond {
			return true
		}
	}
	var kb strings.Builder
	for _, t := range pc {
		fmt.Fprintf(&kb, "%d,", t.id)
	}
	fmt.Fprintf(&kb, "|%d", cond.id)
	key := kb.String()
	if v, ok := s.memo[key]; ok {
		return v
	}
	t0 := time.Now()
	neg := c.Not(cond)
	s.text(neg)
	s.sync(pc)
	str := s.text(neg)
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n(pop 1)\n", str)
	s.nq++
	r := s.read()
	d := time.Since(t0)
	s.time += d
	atomic.AddInt64(&solverCalls, 1)
	atomic.AddInt64(&solverNanos, int64(d))
	v := r == "unsat"
	s.memo[key] = v
	return v
}

func (s *Session) read() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			s.start()
			return "unknown"
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
			return l
		case strings.HasPrefix(l, "(error"):
			if strings.Contains(l, "canceled") || strings.Contains(l, "out of memory") {
				continue
			}
			panic(fmt.Errorf("solver session: %s", l))
		}
	}
}

//
// one-shot queries
//

type Answer struct {
	Result string // unsat, sat, unknown
	Solver string
	Time   float64
	Model  string
}

var procSem = make(chan bool, runtime.NumCPU())

func runSolver(ctx context.Context, name string, args []string, script string) (res string, rest string) {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := out.String()
	for strings.HasPrefix(s, "WARNING") {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		s = s[i+1:]
	}
	for _, l := range strings.SplitN(s, "\n", 2)[:1] {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			r := ""
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				r = s[i+1:]
			}
			return l, r
		}
	}
	if os.Getenv("GOCV_DEBUG") != "" && ctx.Err() == nil && !strings.Contains(s, "timeout") && !strings.Contains(s, "interrupted") {
		os.WriteFile("/tmp/gocv-bad.smt2", []byte(script), 0644)
		debugf("solver %s: %.500s", name, s)
	}
	return "unknown", s
}

type backend struct {
	label string
	bin   string
	args  func(ms int) []string
	pre   string
}

var backends = []backend{
	{"z3-5", "z3-new", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, ""},
	{"z3-4.8.12", "z3", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000"} }, ""},
	{"cvc5-1.1.2", "cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--arrays-exp", "-q"}
	}, "(set-logic ALL)\n"},
}

// noExt is for arrays indexed by arrays, where extensionality makes the solver
// diverge or crash. Without it unsat means the same, and sat means nothing.
var noExt = backend{"z3-5 without extensionality", "z3-new", func(ms int) []string {
	return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.array.extensional=false"}
}, ""}

func backendsFor(script string) []backend {
	if strings.Contains(script, "(Array (Array ") {
		return []backend{noExt, backends[0], backends[1]}
	}
	return backends
}

func oneShot(b backend, script string, ms int, model bool) Answer {
	procSem <- true
	defer func() { <-procSem }()
	t0 := time.Now()
	s := b.pre + script + "(check-sat)\n"
	if model {
		s = "(set-option :produce-models true)\n" + s + "(get-model)\n"
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	r, rest := runSolver(ctx, b.bin, b.args(ms), s)
	if r == "sat" && b.label == noExt.label {
		r, rest = "unknown", ""
	}
	d := time.Since(t0)
	atomic.AddInt64(&solverCalls, 1)
	atomic.AddInt64(&solverNanos, int64(d))
	a := Answer{Result: r, Solver: b.label, Time: d.Seconds()}
	if r == "sat" && model {
		a.Model = rest
	}
	return a
}

var ctxMu sync.Mutex

// script prints pc /\ not goal
func (x *Exec) script(pc []*Term, goal *Term) string {
	as := append([]*Term(nil), pc...)
	if goal != nil {
		as = append(as, x.c.Not(goal))
	}
	return x.c.Script(as, "")
}

// proveAll decides which goals follow from pc (quick)
func (x *Exec) proveAll(pc []*Term, goals []*Term) []bool {
	res := make([]bool, len(goals))
	var todo []int
	inPC := map[*Term]bool{}
	for _, t := range pc {
		inPC[t] = true
	}
	for i, g := range goals {
		if x.c.isTrue(g) || inPC[g] {
			res[i] = true
			continue
		}
		if x.c.isFalse(g) {
			continue
		}
		if !g.qf && x.sol.entailsPC(pc, g) {
			res[i] = true
			continue
		}
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		return res
	}
	key := func(i int) string {
		var kb strings.Builder
		for _, t := range pc {
			fmt.Fprintf(&kb, "%d,", t.id)
		}
		fmt.Fprintf(&kb, "|%d", goals[i].id)
		return kb.String()
	}
	var wg sync.WaitGroup
	for _, i := range todo {
		k := key(i)
		if v, ok := x.pmemo[k]; ok {
			res[i] = v
			continue
		}
		sc := x.script(pc, goals[i])
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			bs := backendsFor(sc)
			if bs[0].label == noExt.label {
				bs = bs[:2]
			} else {
				bs = bs[:1]
			}
			for _, b := range bs {
				if res[i] = oneShot(b, sc, x.w.candMS, false).Result == "unsat"; res[i] {
					break
				}
			}
			if !res[i] && candDump != "" {
				os.WriteFile(fmt.Sprintf("%s/cand%d.smt2", candDump, goals[i].id), []byte(sc), 0644)
			}
		}(i)
	}
	wg.Wait()
	for _, i := range todo {
		x.pmemo[key(i)] = res[i]
	}
	return res
}

var intRe = regexp.MustCompile(`\(define-fun \|?([^ |]+)\|? \(\) Int\s+(\(- [0-9]+\)|[0-9]+)\)`)

// candDump is where candidates that are not proved are written, for debugging
var candDump = os.Getenv("GOCV_CANDS")

// discharge tries all back ends on an obligation
func (x *Exec) dischargeScript(o *Obligation, sc string, ms int) {
	for round := 0; round < 2 && o.Status == ""; round++ {
		t := ms / 4
		if !x.w.deadline.IsZero() && time.Now().After(x.w.deadline) {
			t = 1500
			if round == 1 {
				break
			}
		} else if round == 1 {
			t = ms
		}
		for _, b := range backendsFor(sc) {
			a := oneShot(b, sc, t, b.label == backends[0].label)
			o.Time += a.Time
			switch a.Result {
			case "unsat":
				o.Status, o.Solver = "proved", a.Solver
				return
			case "sat":
				o.Status, o.Solver = "failed", a.Solver
				for _, m := range intRe.FindAllStringSubmatch(a.Model, -1) {
					if len(o.Model) < 60 && (strings.HasPrefix(m[1], "p.") || !strings.Contains(m[1], "!")) {
						o.Model = append(o.Model, m[1]+"="+strings.Trim(strings.ReplaceAll(m[2], "- ", "-"), "()"))
					}
				}
				return
			}
		}
	}
	if o.Status == "" {
		o.Status = "unknown"
	}
}
