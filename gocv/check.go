package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

type KnownFinding struct {
	Property   string `json:"property"`
	Kind       string `json:"kind"` // obligation or input
	Match      string `json:"match"`
	What       string `json:"what"`
	regexMatch *regexp.Regexp
}

type KnownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

type HarnessOut struct {
	Pkg      string   `json:"pkg"`
	Evals    int      `json:"evals"`
	Distinct int      `json:"distinct"`
	Rule     string   `json:"rule"`
	Bound    string   `json:"bound"`
	Samples  []string `json:"samples"`
	Known    []string `json:"known"`
	Fail     *struct {
		Class string `json:"class"`
		Input string `json:"input"`
		What  string `json:"what"`
	} `json:"fail"`
	Note string `json:"note"`
	Out  string `json:"-"`
}

func mainCheck(id, tier string) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	outDir := filepath.Join(verifDir, "out", id)
	os.RemoveAll(outDir)
	os.MkdirAll(outDir, 0755)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	known := loadKnown()
	if s := os.Getenv("VERIF_REPO"); s != "" {
		repoDir = s // a scratch copy, to try changes
	}

	w, err := Load(repoDir, filepath.Join(verifDir, "gomod/go.mod"), filepath.Join(verifDir, "contracts"))
	var results []*Result
	loadErr := ""
	if err != nil {
		loadErr = err.Error()
	} else {
		if tier == "thorough" {
			w.oblMS = 90000
			w.candMS = 6000
		}
		w.deadline = time.Now().Add(420 * time.Second)
		if tier == "thorough" {
			w.deadline = time.Now().Add(3 * time.Hour)
		}
		w.Prop = id
		var cts []*Contract
		for _, ct := range w.contracts {
			if ct.IsIface || ct.Trusted {
				continue
			}
			for _, p := range ct.Props {
				if p == id {
					cts = append(cts, ct)
				}
			}
		}
		// contracts relied upon at calls are verified too
		cts = w.closure(cts)
		results = make([]*Result, len(cts))
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for i, ct := range cts {
			wg.Add(1)
			go func(i int, ct *Contract) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				results[i] = w.Verify(ct)
			}(i, ct)
		}
		wg.Wait()
	}
	// outcome of the proofs
	type failure struct {
		name, detail string
		models       []string
	}
	var fails []failure
	var knownHit, unread []string
	isKnown := func(kind, name string) bool {
		for _, k := range known.Findings {
			if k.Property == id && k.Kind == kind && k.regexMatch.MatchString(name) {
				knownHit = append(knownHit, k.What)
				return true
			}
		}
		return false
	}
	nobl, ndis := 0, 0
	back := map[string]int{}
	trusted := map[string]bool{}
	fnInfo := []map[string]interface{}{}
	solverTime := float64(atomic.LoadInt64(&solverNanos)) / 1e9
	for _, r := range results {
		nobl += len(r.Obls)
		np := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				np++
				back[o.Solver]++
			}
		}
		ndis += np
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		kinds := map[string]int{}
		for _, o := range r.Obls {
			kinds[o.Kind]++
		}
		fnInfo = append(fnInfo, map[string]interface{}{"function": r.Label(), "at": r.Pos, "obligations": len(r.Obls), "discharged": np, "kinds": kinds, "paths": r.Paths, "returns": r.Returns,
			"inlined": r.Inlined, "models_and_contracts_used": r.Used, "loop_invariants": len(r.Invs), "wall_s": r.Wall})
		switch {
		case r.Unreadable:
			// the contract names what the code no longer has: it says nothing of
			// this code, and the bounded runs stand in (see below)
			unread = append(unread, r.Label()+": "+r.Err)
		case r.Err != "":
			if !isKnown("obligation", r.Label()+": "+r.Err) {
				nobl++
				fails = append(fails, failure{name: r.Label() + ": cannot be verified: " + r.Err})
			}
		case r.Vacuous != "":
			nobl++
			fails = append(fails, failure{name: r.Label() + ": vacuous: " + r.Vacuous})
		}
		seen := map[string]bool{}
		for _, o := range r.Failed() {
			if isKnown("obligation", o.Name) {
				nobl--
				continue
			}
			if seen[o.Name] {
				continue
			}
			seen[o.Name] = true
			fails = append(fails, failure{name: o.Name, detail: fmt.Sprintf("%s (%s, solver answer %q) at %s; path %s; model %s", o.Name, o.Kind, o.Status, o.Pos, strings.Join(o.Trace, ", "), strings.Join(o.Model, " ")), models: o.Model})
		}
	}
	if loadErr != "" {
		fails = append(fails, failure{name: "the source does not load: " + loadErr})
	}
	for _, f := range fails {
		fmt.Println("failed obligation:", f.name)
		if f.detail != "" {
			fmt.Println("   ", f.detail)
		}
	}
	proofWall := time.Since(t0).Seconds()

	// bounded runs of the real code: counterexample replay, and stand-ins
	budget := 12000
	if len(results) == 0 {
		budget = 25000
	}
	if tier == "thorough" {
		budget = 120000
	}
	if len(fails)+len(unread) > 0 {
		budget = 40000
	}
	if s := os.Getenv("VERIF_BUDGET_MS"); s != "" {
		budget, _ = strconv.Atoi(s)
	}
	hintSet := map[string]bool{}
	for _, f := range fails {
		for _, m := range f.models {
			if i := strings.IndexByte(m, '='); i >= 0 {
				hintSet[m[i+1:]] = true
			}
		}
	}
	hs := runHarness(id, outDir, seed, budget, keysOf(hintSet), known)
	var bad *HarnessOut
	evals, distinct := 0, 0
	var samples []string
	var rules, bounds []string
	hinfo := []map[string]interface{}{}
	for _, h := range hs {
		if h.Fail != nil && bad == nil {
			bad = h
		}
		evals += h.Evals
		distinct += h.Distinct
		for i, s := range h.Samples {
			if i < 4 {
				samples = append(samples, s)
			}
		}
		for _, k := range h.Known {
			for _, kf := range known.Findings {
				if kf.Property == id && kf.Kind == "input" && kf.regexMatch.MatchString(k) {
					knownHit = append(knownHit, kf.What)
				}
			}
		}
		if h.Rule != "" {
			rules = append(rules, h.Rule)
		}
		if h.Bound != "" {
			bounds = append(bounds, h.Bound)
		}
		hinfo = append(hinfo, map[string]interface{}{"package": h.Pkg, "evaluations": h.Evals, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "bound": h.Bound, "note": h.Note})
		if h.Note != "" {
			fmt.Println("harness note:", h.Pkg, firstLines(h.Note, 6))
		}
	}
	if len(unread) > 0 && bad == nil {
		stands := len(hs) > 0
		for _, h := range hs {
			if h.Note != "" || h.Evals == 0 {
				stands = false
			}
		}
		for _, u := range unread {
			if stands {
				fmt.Println("NOT PROVED (the contract does not fit the code any more; bounded runs stand in):", u)
			} else {
				nobl++
				fails = append(fails, failure{name: u})
				fmt.Println("failed obligation:", u)
			}
		}
	}
	nviol := 0
	code := 0
	replay := filepath.Join(outDir, "replay.json")
	if len(fails) > 0 || bad != nil {
		code = 1
		nviol = 1
		rep := map[string]interface{}{"property": id, "seed": seed, "tier": tier}
		var fl []map[string]string
		for _, f := range fails {
			fl = append(fl, map[string]string{"obligation": f.name, "verifier_output": f.detail})
		}
		rep["failed_obligations"] = fl
		suffix := ""
		if bad != nil {
			rep["failing_input"] = bad.Fail.Input
			rep["what_failed"] = bad.Fail.What
			rep["package"] = bad.Pkg
			rep["output"] = bad.Out
			rep["how_to_replay"] = fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s", seed, id)
			fmt.Printf("failing input (%s): %s\n    %s\n", bad.Pkg, bad.Fail.Input, bad.Fail.What)
		} else {
			suffix = " no-failing-input-found"
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(replay, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, replay, suffix)
	}
	seenK := map[string]bool{}
	for _, k := range knownHit {
		if !seenK[k] {
			seenK[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	level := "proof"
	if len(results) == 0 || len(unread) > 0 || claimedLevel(id) == "exploration" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": ndis,
		"checker_cmd":              fmt.Sprintf("./check.sh %s (gocv: VC generation over go/ssa of /repo's current source; back ends z3-new, z3, cvc5)", id),
		"trusted_base":             append([]string{"gocv (the VC generator in /verif/gocv), go/ssa, z3, cvc5", "dependencies replaced by the offline stubs in /verif/stubs for type checking; their behaviour in proofs is the listed models and assumed contracts"}, keysOf(trusted)...),
		"functions_under_contract": fnInfo,
		"back_ends":                back,
		"solver_time_s":            solverTime,
		"solver_calls":             atomic.LoadInt64(&solverCalls),
		"proof_wall_s":             proofWall,
		"not_proved_bounded_only":  unread,
		"bounded_runs":             hinfo,
		"evaluations":              evals,
		"distinct_nontrivial":      distinct,
		"rule":                     strings.Join(rules, "; "),
		"bounds":                   strings.Join(bounds, "; "),
		"samples":                  samples,
		"explanation":              "obligations/discharged: deductive verification, unbounded. evaluations: bounded runs of the real code (replay search, and stand-in for what no contract reaches); these are never counted as proved.",
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": keysOf(trusted), "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0644)
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d bounded cases, %.1fs\n", id, len(results), ndis, nobl, evals, time.Since(t0).Seconds())
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// closure adds the opaque contracts that the given ones rely on
func (w *World) closure(cts []*Contract) []*Contract {
	have := map[*Contract]bool{}
	for _, c := range cts {
		have[c] = true
	}
	// opaque, not trusted contracts listed with "uses"
	for i := 0; i < len(cts); i++ {
		for _, u := range cts[i].Uses {
			for _, c := range w.contracts {
				if (c.Name == u || lastPart(c.Name) == u) && !c.Trusted && !c.IsIface && !have[c] {
					have[c] = true
					cts = append(cts, c)
				}
			}
		}
	}
	return cts
}

func loadKnown() *KnownFile {
	k := &KnownFile{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, k); err != nil {
			fmt.Println("known-findings.json:", err)
		}
	}
	for i := range k.Findings {
		k.Findings[i].regexMatch = regexp.MustCompile(k.Findings[i].Match)
	}
	return k
}

var pkgClause = regexp.MustCompile(`(?m)^package \w+`)

// runHarness runs the bounded tests of a property against the real code
func runHarness(id, outDir string, seed, budget int, hints []string, known *KnownFile) (out []*HarnessOut) {
	base := filepath.Join(verifDir, "harness", id)
	files := map[string][]string{}
	filepath.WalkDir(base, func(p string, d fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(base, filepath.Dir(p))
			files[rel] = append(files[rel], p)
		}
		return nil
	})
	var rels []string
	for r := range files {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	var kn []string
	for _, k := range known.Findings {
		if k.Property == id && k.Kind == "input" {
			kn = append(kn, k.Match)
		}
	}
	common, _ := os.ReadFile(filepath.Join(verifDir, "harness/common/vutil.go.txt"))
	scratch, err := os.MkdirTemp("", "verif-harness-")
	if err != nil {
		return
	}
	defer os.RemoveAll(scratch)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, rel := range rels {
		wg.Add(1)
		go func(rel string) {
			defer wg.Done()
			h := &HarnessOut{Pkg: rel}
			defer func() {
				mu.Lock()
				out = append(out, h)
				mu.Unlock()
			}()
			dir := filepath.Join(repoDir, rel)
			repl := map[string]string{}
			// the package's own tests are left out
			es, _ := os.ReadDir(dir)
			for _, e := range es {
				if strings.HasSuffix(e.Name(), "_test.go") {
					repl[filepath.Join(dir, e.Name())] = ""
				}
			}
			work := filepath.Join(scratch, sanitize(rel))
			os.MkdirAll(work, 0755)
			pkg := ""
			race := false
			for i, f := range files[rel] {
				b, _ := os.ReadFile(f)
				pkg = pkgClause.FindString(string(b))
				race = race || strings.Contains(string(b), "//verif:race\n")
				repl[filepath.Join(dir, fmt.Sprintf("verif%d_%s", i, filepath.Base(f)))] = f
			}
			cf := filepath.Join(work, "vutil_test.go")
			os.WriteFile(cf, pkgClause.ReplaceAll(common, []byte(pkg)), 0644)
			repl[filepath.Join(dir, "vutil_verif_test.go")] = cf
			ov := filepath.Join(work, "overlay.json")
			b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
			os.WriteFile(ov, b, 0644)
			res := filepath.Join(work, "out.json")
			bin := filepath.Join(work, "t.test")
			modf := "-modfile=" + filepath.Join(verifDir, "gomod/go.mod")
			ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
			defer cancel()
			var bo bytes.Buffer
			build := func(race bool) error {
				bo.Reset()
				as := []string{"test", "-mod=mod", modf, "-vet=off", "-overlay", ov, "-c", "-o", bin}
				env := append(os.Environ(), "GOFLAGS=", "GOSUMDB=off", "GOPROXY=off")
				if race {
					as = append(as, "-race")
					env = append(env, "CGO_ENABLED=1")
				}
				cmd := exec.CommandContext(ctx, "go", append(as, "./"+rel)...)
				cmd.Dir = repoDir
				cmd.Env = env
				cmd.Stdout, cmd.Stderr = &bo, &bo
				return cmd.Run()
			}
			err := build(race)
			if err != nil && race {
				err = build(false)
			}
			if err != nil {
				h.Note = "the bounded run does not build: " + bo.String()
				return
			}
			ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(budget)*time.Millisecond+90*time.Second)
			defer cancel2()
			run := exec.CommandContext(ctx2, bin, "-test.run", "^TestVerif", "-test.timeout", fmt.Sprintf("%dms", budget+80000))
			run.Dir = work
			run.Env = append(os.Environ(), "VERIF_OUT="+res, "VERIF_ID="+id, fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET_MS=%d", budget),
				"VERIF_HINTS="+strings.Join(hints, ","), "VERIF_KNOWN="+strings.Join(kn, "\x01"), "TMPDIR="+work)
			var ro bytes.Buffer
			run.Stdout, run.Stderr = &ro, &ro
			rerr := run.Run()
			if b, err := os.ReadFile(res); err == nil {
				json.Unmarshal(b, h)
				h.Pkg = rel
			}
			h.Out = tail(ro.String(), 6000)
			if rerr != nil && h.Fail == nil {
				// the code crashed or hung outside of the caught calls
				in, _ := os.ReadFile(res + ".last")
				h.Fail = &struct {
					Class string `json:"class"`
					Input string `json:"input"`
					What  string `json:"what"`
				}{"crash", string(in), "the program crashed or did not finish: " + firstLines(tail(ro.String(), 3000), 30)}
				if ctx2.Err() != nil {
					h.Fail.What = "the program did not finish: " + rerr.Error()
				}
			}
		}(rel)
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Pkg < out[j].Pkg })
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// claimedLevel is the level MANIFEST.json claims for a property
func claimedLevel(id string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err != nil {
		return ""
	}
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return ""
	}
	var cs []map[string]interface{}
	if json.Unmarshal(m["checks"], &cs) != nil {
		return ""
	}
	for _, c := range cs {
		if c["property"] == id || c["id"] == id || c["property_id"] == id {
			for _, k := range []string{"level", "verification_level"} {
				if s, ok := c[k].(string); ok {
					return s
				}
			}
		}
	}
	return ""
}
