package main

// Loading the harness together with the code under test.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoPkg = "github.com/bluekeyes/go-gitdiff/gitdiff"
	symPkg  = "verif/harness/sym"
	hPkg    = "verif/harness/props"
)

type Prog struct {
	ssa   *ssa.Program
	main  *ssa.Package
	repo  *ssa.Package
	mu    sync.Mutex
	byPth map[string]*ssa.Package

	errStrRT *rtype
	errStrTI *tinfo
	stringRT *rtype

	errorStringTI, wrapErrorTI, wrapErrorsTI *tinfo
	errorStringRT, wrapErrorRT, wrapErrorsRT *rtype
	poolTI                                   *tinfo
	errorTI                                  *tinfo

	docs []string // doc comments of the harness functions
}

func loadProg(dir, modfile string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off"),
	}
	if modfile != "" {
		cfg.BuildFlags = []string{"-modfile=" + modfile}
	}
	pkgs, err := packages.Load(cfg, hPkg)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("loading harness: %s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{ssa: prog, main: spkgs[0], byPth: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.byPth[p.Pkg.Path()] = p
	}
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				P.docs = append(P.docs, strings.Join(strings.Fields(fd.Doc.Text()), " "))
			}
		}
	}
	P.repo = P.byPth[repoPkg]
	if P.repo == nil {
		return nil, fmt.Errorf("package %s not loaded", repoPkg)
	}
	tn := func(pkg, name string) types.Type {
		p := P.byPth[pkg]
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	P.stringRT = runtimeType(types.Typ[types.String])
	set := func(pkg, name string) (*tinfo, *rtype) {
		T := tn(pkg, name)
		if T == nil {
			return nil, nil
		}
		return typeInfo(T), runtimeType(types.NewPointer(T))
	}
	P.errorStringTI, P.errorStringRT = set("errors", "errorString")
	P.wrapErrorTI, P.wrapErrorRT = set("fmt", "wrapError")
	P.wrapErrorsTI, P.wrapErrorsRT = set("fmt", "wrapErrors")
	P.poolTI = typeInfo(tn("sync", "Pool"))
	P.errorTI = typeInfo(types.Universe.Lookup("error").Type())
	P.errStrTI, P.errStrRT = P.errorStringTI, P.errorStringRT
	return P, nil
}

func (p *Prog) fn(pkg, name string) *cfunc {
	sp := p.byPth[pkg]
	if sp == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	f := sp.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return getFunc(f)
}

func (p *Prog) global(pkg, name string) *ssa.Global {
	return p.byPth[pkg].Var(name)
}

// methodOf finds the implementation of a method, promoted ones included.
func (p *Prog) methodOf(T types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.ssa.MethodSets.MethodSet(T)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}
