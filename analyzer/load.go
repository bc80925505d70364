package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"yarqlcheck/absint"
)

// World is the type-checked program.
type World struct {
	Repo  string
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	SSA   map[string]*ssa.Package // by import path
	Root  *ssa.Package            // yarql
	Byte  *ssa.Package            // yarql/bytecode
	Cache *ssa.Package            // yarql/bytecode/cache
	Help  *ssa.Package            // yarql/helpers
	Scope []*types.Package

	Configs int

	cg   *callGraph
	fns  []*ssa.Function
	sets map[string]absint.Set
}

const modPath = "github.com/mjarkk/yarql"

// Load type-checks the repository with the real build's flags, target is empty or os/arch.
func Load(repo, target string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if goos, arch, ok := strings.Cut(target, "/"); ok {
		env = append(env, "GOOS="+goos, "GOARCH="+arch)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the repository doesn't type-check: %s", strings.Join(bad, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Repo: repo, Prog: prog, SSA: map[string]*ssa.Package{}}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		path := pkgs[i].PkgPath
		w.SSA[path] = p
		if path == modPath+"/assert" || path == modPath+"/tester" {
			continue // helpers of tests
		}
		w.Pkgs = append(w.Pkgs, pkgs[i])
		w.Scope = append(w.Scope, p.Pkg)
	}
	w.Root, w.Byte, w.Cache, w.Help = w.SSA[modPath], w.SSA[modPath+"/bytecode"], w.SSA[modPath+"/bytecode/cache"], w.SSA[modPath+"/helpers"]
	for _, p := range []*ssa.Package{w.Root, w.Byte, w.Cache, w.Help} {
		if p == nil {
			return nil, fmt.Errorf("a package of the module is missing")
		}
	}
	return w, nil
}

// Method returns a method of a named type, or nil.
func (w *World) Method(p *ssa.Package, typ, name string) *ssa.Function {
	t, ok := p.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, rt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		sel := w.Prog.MethodSets.MethodSet(rt).Lookup(p.Pkg, name)
		if sel != nil {
			return w.Prog.MethodValue(sel)
		}
	}
	return nil
}

// Pos formats a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	pos := w.Prog.Fset.Position(p)
	if rel, err := filepath.Rel(w.Repo, pos.Filename); err == nil {
		pos.Filename = rel
	}
	return fmt.Sprintf("%s:%d:%d", pos.Filename, pos.Line, pos.Column)
}

func sortedNames[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
