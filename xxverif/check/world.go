// Package check decides the properties of /verif/properties.jsonl from the
// abstract paths computed by package ai.
package check

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"xxverif/ai"
)

// World is the analysed program.
type World struct {
	Dir    string
	Mod    string
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // by path relative to the module ("" is the root)
	GoPkgs map[string]*packages.Package
	Fset   *token.FileSet
	E      *ai.Engine
	init   *ai.State
}

// LoadWorld type-checks and builds SSA for the module at dir.
func LoadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax | packages.NeedModule}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pk) == 0 || pk[0].Module == nil {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	prog, pp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Dir: dir, Mod: pk[0].Module.Path, Prog: prog, Pkgs: map[string]*ssa.Package{}, GoPkgs: map[string]*packages.Package{}, Fset: prog.Fset}
	for i, p := range pp {
		if p == nil {
			return nil, fmt.Errorf("package %s was not built", pk[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), w.Mod), "/")
		w.Pkgs[rel] = p
		w.GoPkgs[rel] = pk[i]
	}
	w.E = ai.NewEngine(prog, w.Mod)
	return w, nil
}

// Init is the state after the package initialisers of the module have run.
func (w *World) Init() *ai.State {
	if w.init == nil {
		st := ai.NewState()
		var order []*ssa.Package
		seen := map[*types.Package]bool{}
		var visit func(p *types.Package)
		visit = func(p *types.Package) {
			if seen[p] {
				return
			}
			seen[p] = true
			for _, i := range p.Imports() {
				visit(i)
			}
			if q := w.Prog.Package(p); q != nil && w.Pkgs[w.rel(p)] == q && p.Name() != "main" {
				order = append(order, q)
			}
		}
		var rels []string
		for r := range w.Pkgs {
			rels = append(rels, r)
		}
		sort.Strings(rels)
		for _, r := range rels {
			visit(w.Pkgs[r].Pkg)
		}
		e := w.E.With()
		for _, p := range w.Prog.AllPackages() {
			if f := p.Func("init"); f != nil {
				e.Override[f] = func(c *ai.CallCtx) []*ai.Outcome { return ai.Return(c.St) }
			}
		}
		for _, p := range order {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					t := g.Type().(*types.Pointer).Elem()
					e.Store(st, ai.Global(g), e.Zero(t), t)
				}
			}
			f := p.Func("init")
			if f == nil {
				continue
			}
			var normal []*ai.Outcome
			for _, o := range e.Run(f, nil, st) {
				if o.Kind == ai.Ret {
					normal = append(normal, o)
				}
			}
			if len(normal) != 1 {
				panic(fmt.Sprintf("package initialiser of %s: %d normal outcomes", p.Pkg.Path(), len(normal)))
			}
			st = normal[0].St
		}
		st.ClearEvents()
		w.init = st
	}
	return w.init.Clone()
}

func (w *World) rel(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), w.Mod), "/")
}

// Type finds a named type.
func (w *World) Type(pkg, name string) *types.Named {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Fn finds a package-level function.
func (w *World) Fn(pkg, name string) *ssa.Function {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method finds a method declared on T or *T (not promoted through embedding unless it is).
func (w *World) Method(t *types.Named, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return w.Prog.FuncValue(f)
}

// Methods lists the exported methods declared on T or *T.
func (w *World) Methods(t *types.Named) []*ssa.Function {
	var fs []*ssa.Function
	for i := 0; i < t.NumMethods(); i++ {
		if m := t.Method(i); m.Exported() {
			if f := w.Prog.FuncValue(m); f != nil {
				fs = append(fs, f)
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.Dir+"/"), q.Line)
}

func (w *World) Global(pkg, name string) *ssa.Global {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

// allFns lists the source functions of the module, closures included.
func (w *World) allFns() []*ssa.Function {
	var out []*ssa.Function
	all := ssautil.AllFunctions(w.Prog)
	// it leaves out the methods of types nobody uses
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f != nil && !all[f] {
			all[f] = true
			for _, g := range f.AnonFuncs {
				add(g)
			}
		}
	}
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := types.Unalias(t.Type()).(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(w.Prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	for f := range all {
		if f.Pkg != nil && w.Pkgs[w.rel(f.Pkg.Pkg)] == f.Pkg && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}
