package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-lowered view of the repository under
// analysis. Nothing in it is ever executed.
type Program struct {
	Dir  string
	Mod  string
	Pkgs []*packages.Package
	SSA  *ssa.Program
	Fns  map[*ssa.Function]bool // every function, including synthetic ones
	Src  []*ssa.Function        // module functions with a body, in source order
}

func loadRepo(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")}

	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}

	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages matched in %s", dir)
	}

	var errs []string

	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})

	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}

	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()

	p := &Program{Dir: dir, Pkgs: ps, SSA: prog, Fns: ssautil.AllFunctions(prog)}

	for _, q := range ps {
		if q.Module != nil && q.Module.Main {
			p.Mod = q.Module.Path
		}
	}

	if p.Mod == "" {
		return nil, fmt.Errorf("no main module in %s", dir)
	}

	seen := map[*ssa.Function]bool{}

	for f := range p.Fns {
		if f.Blocks != nil && p.inModule(f) && f.Synthetic == "" && !seen[f] {
			seen[f] = true
			p.Src = append(p.Src, f)
		}
	}

	sort.Slice(p.Src, func(i, j int) bool {
		a, b := p.SSA.Fset.Position(p.Src[i].Pos()), p.SSA.Fset.Position(p.Src[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}

		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}

		return p.Src[i].String() < p.Src[j].String()
	})

	return p, nil
}

// fnPkg returns the package a function belongs to, looking through closures
// and synthetic wrappers.
func fnPkg(f *ssa.Function) *types.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}

		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}

		if f.Parent() == nil {
			break
		}

		f = f.Parent()
	}

	if f != nil && f.Signature.Recv() != nil {
		if n := namedOf(f.Signature.Recv().Type()); n != nil {
			return n.Obj().Pkg()
		}
	}

	return nil
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}

	n, _ := t.(*types.Named)

	return n
}

func (p *Program) inModule(f *ssa.Function) bool {
	k := fnPkg(f)

	return k != nil && (k.Path() == p.Mod || strings.HasPrefix(k.Path(), p.Mod+"/"))
}

// pkg finds a module package by its path relative to the module root.
func (p *Program) pkg(rel string) *ssa.Package {
	path := p.Mod
	if rel != "" {
		path += "/" + rel
	}

	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == path {
			return q
		}
	}

	return nil
}

func (p *Program) fn(rel, name string) *ssa.Function {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}

	return q.Func(name)
}

func (p *Program) global(rel, name string) *ssa.Global {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}

	return q.Var(name)
}

func (p *Program) typ(rel, name string) *types.Named {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}

	t := q.Type(name)
	if t == nil {
		return nil
	}

	n, _ := types.Unalias(t.Type()).(*types.Named)

	return n
}

// method returns the method name of *T (or T) for the named type.
func (p *Program) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}

	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := p.SSA.MethodSets.MethodSet(t)
		if s := ms.Lookup(n.Obj().Pkg(), name); s != nil {
			return p.SSA.MethodValue(s)
		}
	}

	return nil
}

func (p *Program) loc(pos token.Pos) string {
	if p.SSA == nil {
		return "-"
	}

	if !pos.IsValid() {
		return "-"
	}

	q := p.SSA.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)

	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}

	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fname is a short, stable name for a function: pkg.(*T).m or pkg.f.
func (p *Program) fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}

	s := f.RelString(nil)

	return strings.ReplaceAll(s, p.Mod+"/", "")
}
