package main

// Loading of /repo (with the specification overlay) into SSA form.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexispb/mygosnmp"

// repoDir is /repo; VERIF_REPO points the development tools at a scratch copy.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

func load(overlay map[string][]byte) (*Engine, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
		Overlay: overlay,
	}
	pats := []string{"./..."}
	for f := range overlay {
		d, _ := filepath.Rel(repoDir, filepath.Dir(f))
		pats = append(pats, "./"+d)
	}
	sort.Strings(pats[1:])
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	E := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, repo: map[*ssa.Package]bool{}}
	E.reset()
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			E.pkgs[path] = p
			E.repo[p] = true
			E.repoList = append(E.repoList, p)
			p.Build()
		} else if inlinePkgs[path] {
			p.Build()
		}
	}
	sort.Slice(E.repoList, func(i, j int) bool { return E.repoList[i].Pkg.Path() < E.repoList[j].Pkg.Path() })
	return E, pkgs, nil
}

func (E *Engine) reset() {
	E.globals = map[*ssa.Global]*Obj{}
	E.loops = map[*ssa.Function]*loopInfo{}
	E.totals = map[*ssa.Function]int{}
	E.fnSeen = map[*ssa.Function]bool{}
	E.impls = map[string][]types.Type{}
	E.mem0 = newMem()
	E.events, E.allocs, E.scans = nil, nil, nil
}

// initPackages evaluates the package initialisers of the repository.
func (E *Engine) initPackages() error {
	E.initing = true
	defer func() { E.initing = false }()
	st := &State{ctx: True, reach: True, mem: newMem()}
	for _, p := range E.repoList {
		fn := p.Func("init")
		_, s2, ps := E.evalFunc(fn, nil, nil, st, nil)
		for _, x := range ps {
			if feasible(x.g) {
				return fmt.Errorf("initialisation of %s may panic: %s %s", p.Pkg.Path(), x.site, x.what)
			}
		}
		if s2 == nil {
			return fmt.Errorf("initialisation of %s does not return", p.Pkg.Path())
		}
		st = s2.fork()
		st.reach = True
	}
	E.mem0 = st.mem
	E.events, E.allocs, E.scans = nil, nil, nil
	return nil
}
