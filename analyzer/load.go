package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/qri-io/dataset"

// Program is the resolved, type-checked program under analysis: every non-test
// package of the repository, in SSA form. Dependencies are present as types
// only (export data), which is why calls into them need models.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByPth map[string]*ssa.Package
	Funcs map[string]*ssa.Function // by RelString form, e.g. (*dataset.Dataset).Assign
	All   []*ssa.Function
	Blds  map[*ssa.Package]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	// syntax only for the repository's own packages
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", dir)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s does not load: %v", p.PkgPath, e)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, ByPth: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, Blds: map[*ssa.Package]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.ByPth[pkgs[i].PkgPath] = sp
		p.Blds[sp] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !p.inRepo(fn) {
			continue
		}
		p.All = append(p.All, fn)
		p.Funcs[shortName(fn)] = fn
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i], p.All[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// inRepo: the function has a body in this repository (or is a synthetic wrapper around one).
func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if fn.Pkg != nil {
		return p.Blds[fn.Pkg]
	}
	if fn.Parent() != nil {
		return p.inRepo(fn.Parent())
	}
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "wrapper for") {
		return true // only forwards the call
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return true
}

// shortName: "(*dataset.Dataset).Assign", "dsio.NewEntryReader"
func shortName(fn *ssa.Function) string {
	return shortStr(fn.String())
}

func shortStr(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, "github.com/qri-io/dataset.", "dataset.")
	return s
}

func (p *Program) fn(name string) *ssa.Function { return p.Funcs[name] }

// method finds the method of T (or *T) in the repository by name.
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	sp := p.ByPth[pkg]
	if sp == nil {
		return nil
	}
	tn, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	return p.methodOf(tn.Type(), name)
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				return p.SSA.MethodValue(s)
			}
		}
	}
	return nil
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.ByPth[pkg]
	if sp == nil {
		return nil
	}
	tn, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return tn.Type()
}

func (p *Program) pos(fn *ssa.Function, in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() && fn != nil {
		pos = fn.Pos()
	}
	q := p.SSA.Fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

func (p *Program) fpos(fn *ssa.Function) string {
	q := p.SSA.Fset.Position(fn.Pos())
	return strings.TrimPrefix(q.Filename, p.Dir+"/") + ":" + fmt.Sprint(q.Line)
}
