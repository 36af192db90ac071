package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func dump(name, sc string) {
	os.MkdirAll(dumpDir, 0755)
	n := sanitize(name)
	if len(n) > 100 {
		n = n[:100]
	}
	for i := 0; ; i++ {
		f := filepath.Join(dumpDir, fmt.Sprintf("%s-%d.smt2", n, i))
		if _, err := os.Stat(f); err != nil {
			os.WriteFile(f, []byte(sc+"(check-sat)\n"), 0644)
			return
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		cmdFn(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		os.Exit(mainCheck(os.Args[2], tier))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func cmdFn(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/contracts", "")
	mod := fs.String("mod", "/verif/gomod/go.mod", "")
	v := fs.Bool("v", false, "")
	d := fs.String("dump", "", "")
	ms := fs.Int("ms", 8000, "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	verbosePanic = *v
	dumpDir = *d
	w, err := Load(*repo, *mod, *specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	w.oblMS = *ms
	w.Prop = *prop
	for _, ct := range w.contracts {
		if ct.Trusted || ct.IsIface {
			continue
		}
		match := fs.NArg() == 0
		for _, a := range fs.Args() {
			if strings.Contains(ct.Name+ct.Tag, a) {
				match = true
			}
		}
		if *prop != "" {
			ok := false
			for _, p := range ct.Props {
				ok = ok || p == *prop
			}
			match = match && ok
		}
		if !match {
			continue
		}
		r := w.Verify(ct)
		st := "ok"
		if !r.OK() {
			st = "FAIL"
		}
		np := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				np++
			}
		}
		fmt.Printf("%-4s %s  %d/%d obligations, %d paths, %d returns, %.1fs %s %s\n", st, r.Label(), np, len(r.Obls), r.Paths, r.Returns, r.Wall, r.Err, r.Vacuous)
		for _, o := range r.Failed() {
			fmt.Printf("     %s %s [%s] %s %v\n", o.Status, o.Name, o.Kind, o.Pos, o.Model)
			if *v {
				fmt.Printf("        trace %v\n        goal %s\n", o.Trace, "")
			}
		}
		if *v {
			fmt.Println("     inv:", strings.Join(r.Invs, "\n          "))
			fmt.Println("     used:", r.Used, "inlined:", r.Inlined)
			fmt.Println("     trusted:", strings.Join(r.Trusted, "\n          "))
		}
	}
}
