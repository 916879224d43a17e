package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked, SSA-built program read from the current source tree.
type Prog struct {
	nils   *nilInfo
	Dir    string
	Module string
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	SSA    *ssa.Program
	SPkg   map[string]*ssa.Package
	Funcs  []*ssa.Function // every source function of the module (with closures)

	globConst map[*ssa.Global]bool
}

const modPath = "github.com/r3volut1oner/go-karbo"

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedImports | packages.NeedModule | packages.NeedTypesSizes,
		Dir:  dir,
		Env:  append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=readonly"),
	}
	cfg.Overlay = unrollDir(dir)
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{nils: &nilInfo{}, Dir: dir, Module: modPath, Pkgs: pkgs, SSA: prog, ByPath: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	p.nils.p = p
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.ByPath[pk.PkgPath] = pk
		p.SPkg[pk.PkgPath] = spkgs[i]
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range pkgs {
		sp := p.SPkg[pk.PkgPath]
		for _, name := range sortedKeys(sp.Members) {
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	return p, nil
}

func pkgPath(short string) string {
	if short == "" {
		return modPath
	}
	return modPath + "/" + short
}

// Func resolves a package-level function, e.g. Func("crypto", "CheckRingSignature").
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkg[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method resolves a declared method of a named type.
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) Named(pkg, typ string) *types.Named {
	pk := p.ByPath[pkgPath(pkg)]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func funcPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Parent() != nil {
		return funcPkgPath(f.Parent())
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// At renders a source position relative to the repository root.
func (p *Prog) At(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.SSA.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fname renders a function as pkg.Type.Method or pkg.Func (closures get their parent's name + $n).
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pk := funcPkgPath(f)
	if i := strings.LastIndex(pk, "/"); i >= 0 {
		pk = pk[i+1:]
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}
