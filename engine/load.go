package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Prog is the program being checked, along with the harnesses.
type Prog struct {
	prog    *ssa.Program
	harness *ssa.Package
	models  map[string]*ssa.Function
	mu      sync.Mutex
	builtP  map[*ssa.Package]bool

	repo, verif string
	overlay     map[string]string
}

const harnessDir = "internal/zzverif"

func (p *Prog) overlayFiles() error {
	p.overlay = map[string]string{}
	files, err := filepath.Glob(p.verif + "/harness/*.go")
	if err != nil {
		return err
	}
	for _, f := range files {
		p.overlay[filepath.Join(p.repo, harnessDir, filepath.Base(f))] = f
	}
	return nil
}

func load(repo, verif string) (*Prog, error) {
	p := &Prog{repo: repo, verif: verif, builtP: map[*ssa.Package]bool{}, models: map[string]*ssa.Function{}}
	if err := p.overlayFiles(); err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, f := range p.overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov}
	pkgs, err := packages.Load(cfg, "./"+harnessDir)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	p.prog = ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if q.Types != nil && q.TypesInfo != nil {
			sp := p.prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
			if q == pkgs[0] {
				p.harness = sp
			}
		}
	})
	p.harness.Build()
	p.builtP[p.harness] = true
	for name, m := range modelNames {
		if fn := p.harness.Func(m); fn != nil {
			p.models[name] = fn
		} else {
			return nil, fmt.Errorf("model %s of %s is missing", m, name)
		}
	}
	return p, nil
}

// build makes sure that the body of the function is available.
func (p *Prog) build(fn *ssa.Function) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			if !p.builtP[f.Pkg] {
				p.builtP[f.Pkg] = true
				f.Pkg.Build()
			}
			return
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			if !p.builtP[o.Pkg] {
				p.builtP[o.Pkg] = true
				o.Pkg.Build()
			}
		}
	}
}

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Prog) byteT(w *W) *TInfo { return w.ty.Of(types.Typ[types.Uint8]) }

// runtimeErrorT is the type of the errors that the runtime panics with.
func (p *Prog) runtimeErrorT(w *W) *TInfo {
	if t := w.ifaceTypes["runtime.Error"]; t != nil {
		return t
	}
	m := p.harness.Members["modelRuntimeError"]
	if m == nil {
		panic("modelRuntimeError is missing")
	}
	t := w.ty.Of(m.(*ssa.Type).Type())
	w.ifaceTypes["runtime.Error"] = t
	return t
}
