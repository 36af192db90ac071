package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the program under verification and the contracts
type World struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	byRel     map[string]*packages.Package
	contracts []*Contract
	macros    map[string]*Macro
	specNames map[string]string
	ghosts    map[string]*GhostDecl
	smtfuns   []string
	rawAxioms []string
	mu        sync.Mutex
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	errs      map[string]int
	Prop      string // the property to decide; all of them if blank
	fns       map[string]*ssa.Function
	candMS    int
	oblMS     int
	maxPaths  int
	deadline  time.Time
	gconst    map[*ssa.Global]*gconst
}

func relPath(p string) string {
	p = strings.TrimPrefix(p, repoPrefix+"/")
	return p
}

var mainPkgs = []string{"./data", "./data/cxds", "./data/idxdb", "./skyobject", "./skyobject/registry", "./skyobject/statutil",
	"./cxoutils", "./node", "./node/log", "./node/msg"}

func Load(repo, modfile, specs string) (*World, error) {
	w := &World{byRel: map[string]*packages.Package{}, macros: map[string]*Macro{}, specNames: map[string]string{}, ghosts: map[string]*GhostDecl{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, errs: map[string]int{}, fns: map[string]*ssa.Function{},
		gconst: map[*ssa.Global]*gconst{}, candMS: 1500, oblMS: 20000, maxPaths: 6000}
	w.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: w.fset, BuildFlags: []string{"-mod=mod", "-modfile=" + modfile}}
	gos, _ := filepath.Glob(filepath.Join(specs, "go/*/*.go"))
	cfg.Overlay = map[string][]byte{}
	for _, f := range gos {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[filepath.Join(repo, filepath.Base(filepath.Dir(f)), "zz_verif_"+filepath.Base(f))] = b
	}
	var pkgs []*packages.Package
	var errs []string
	for {
		var err error
		if pkgs, err = packages.Load(cfg, mainPkgs...); err != nil {
			return nil, err
		}
		errs = nil
		for _, p := range pkgs {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
		if len(errs) == 0 || len(cfg.Overlay) == 0 {
			break
		}
		cfg.Overlay = nil // the models do not fit what they are about
		w.fset = token.NewFileSet()
		cfg.Fset = w.fset
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	w.pkgs = pkgs
	for _, p := range pkgs {
		w.byRel[relPath(p.PkgPath)] = p
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.prog = prog
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && inRepo(f.Pkg.Pkg) && f.Synthetic == "" {
			w.fns[fnName(f)] = f
		}
	}
	files, _ := filepath.Glob(filepath.Join(specs, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := w.loadSpec(f); err != nil {
			return nil, err
		}
	}
	return w, nil
}

func (w *World) loopOf(f *ssa.Function, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	l, ok := w.loops[f]
	if !ok {
		l = naturalLoops(f)
		w.loops[f] = l
	}
	return l[b]
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	defer func() { recover() }()
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

func (w *World) contractFor(cur *Contract, name string) *Contract {
	var found *Contract
	for _, c := range w.contracts {
		if c.Name != name {
			continue
		}
		for _, h := range cur.Hide {
			if h == name {
				return nil
			}
		}
		if !(c.Opaque || c.Trusted) {
			continue
		}
		if found == nil || c.Tag == "" {
			found = c
		}
	}
	return found
}

func pkgOfName(n string) string {
	s := strings.TrimPrefix(strings.TrimPrefix(n, "("), "*")
	if s != n {
		if i := strings.Index(s, ")"); i >= 0 {
			s = s[:i]
		}
	}
	slash := strings.LastIndexByte(s, '/')
	if i := strings.IndexByte(s[slash+1:], '.'); i >= 0 {
		return s[:slash+1+i]
	}
	return s
}

func (w *World) isPure(ct *Contract, name string) bool {
	if purePkgs[pkgOfName(name)] {
		return true
	}
	for _, p := range ct.Pures {
		if p == name || strings.HasSuffix(p, "*") && strings.HasPrefix(name, p[:len(p)-1]) {
			return true
		}
	}
	switch name {
	case "os.Getenv", "(cipher.SHA256).Hex", "(cipher.PubKey).Hex", "error.Error", "(cipher.Sig).Hex", "(cipher.SecKey).Hex":
		return true
	}
	return false
}

func (w *World) errID(name string) (int, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	n, ok := w.errs[name]
	if !ok {
		n = len(w.errs) + 1
		w.errs[name] = n
	}
	return n, ok
}

func (w *World) pkgByRel(rel string) *types.Package {
	if p, ok := w.byRel[rel]; ok {
		return p.Types
	}
	return nil
}

func (w *World) importOf(rel, ident string) *types.Package {
	p := w.pkgByRel(rel)
	if p != nil {
		for _, q := range p.Imports() {
			if q.Name() == ident {
				return q
			}
		}
	}
	for _, q := range w.pkgs {
		if q.Types.Name() == ident {
			return q.Types
		}
	}
	var res *types.Package
	packages.Visit(w.pkgs, func(q *packages.Package) bool {
		if q.Types != nil && q.Types.Name() == ident && (res == nil || len(q.PkgPath) < len(res.Path())) {
			res = q.Types
		}
		return res == nil
	}, nil)
	return res
}

func (w *World) resolveType(rel string, e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return w.resolveType(rel, e.X)
	case *ast.Ident:
		if p := w.pkgByRel(rel); p != nil {
			if tn, ok := p.Scope().Lookup(e.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if tn, ok := types.Universe.Lookup(e.Name).(*types.TypeName); ok {
			return tn.Type()
		}
	case *ast.SelectorExpr:
		id, ok := e.X.(*ast.Ident)
		if !ok {
			return nil
		}
		if p := w.importOf(rel, id.Name); p != nil {
			if tn, ok := p.Scope().Lookup(e.Sel.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		if t := w.resolveType(rel, e.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		t := w.resolveType(rel, e.Elt)
		if t == nil {
			return nil
		}
		if e.Len == nil {
			return types.NewSlice(t)
		}
		if bl, ok := e.Len.(*ast.BasicLit); ok {
			var n int64
			fmt.Sscan(bl.Value, &n)
			return types.NewArray(t, n)
		}
	case *ast.MapType:
		k, v := w.resolveType(rel, e.Key), w.resolveType(rel, e.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	}
	return nil
}

func (w *World) typeOf(rel, s string) types.Type {
	star := strings.HasPrefix(s, "*")
	s = strings.TrimPrefix(s, "*")
	var e ast.Expr = ast.NewIdent(s)
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		e = &ast.SelectorExpr{X: ast.NewIdent(s[:i]), Sel: ast.NewIdent(s[i+1:])}
	}
	t := w.resolveType(rel, e)
	if t != nil && star {
		t = types.NewPointer(t)
	}
	return t
}

func (w *World) global(p *types.Package, n string) *ssa.Global {
	sp := w.prog.Package(p)
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[n].(*ssa.Global)
	return g
}

func (x *Exec) constOf(o *types.Const) *Term {
	v := o.Val()
	switch v.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(v))
	case constant.String:
		return x.strLit(constant.StringVal(v))
	case constant.Int:
		if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return x.realConst(v)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return x.c.Big(n)
	case constant.Float:
		return x.realConst(v)
	}
	panic(serr("constant %s", o))
}

func (x *Exec) specEnv() map[string]SVal { return x.env0 }
