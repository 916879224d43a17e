package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// reachSet is the set of module functions that may run once one of the roots runs. It is an
// over-approximation in the manner of rapid type analysis: a static callee, every method of a
// module type that a reachable function turns into an interface (a library may call any of
// them), every implementation of an interface call among the module's types, and every function
// whose value a reachable function mentions.
type reachSet struct {
	p     *Prog
	order []*ssa.Function
	from  map[*ssa.Function]*ssa.Function
	ext   []extCall
	impls map[*types.Func][]*ssa.Function
}

type extCall struct {
	in     *ssa.Function
	callee string // pkg.Name or pkg.Type.Name
	pos    token.Pos
	goStmt bool
}

func (p *Prog) reach(roots ...*ssa.Function) *reachSet {
	r := &reachSet{p: p, from: map[*ssa.Function]*ssa.Function{}}
	var work []*ssa.Function
	add := func(f, from *ssa.Function) {
		if f == nil {
			return
		}
		if o := f.Origin(); o != nil && f.Blocks == nil {
			f = o
		}
		if !inModule(funcPkgPath(f)) && f.Synthetic == "" {
			return
		}
		if f.Blocks == nil {
			return
		}
		if _, ok := r.from[f]; ok {
			return
		}
		r.from[f] = from
		r.order = append(r.order, f)
		work = append(work, f)
	}
	for _, f := range roots {
		add(f, nil)
	}
	asIface := map[types.Type]bool{}
	boxed := func(t types.Type, in *ssa.Function) {
		if asIface[t] {
			return
		}
		asIface[t] = true
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			add(p.SSA.MethodValue(ms.At(i)), in)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					boxed(mi.X.Type(), f)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					_, isGo := in.(*ssa.Go)
					if c.IsInvoke() {
						for _, g := range r.implementors(c.Method) {
							add(g, f)
						}
						r.ext = append(r.ext, extCall{f, extName(c.Method), ci.Pos(), isGo})
					} else if g := c.StaticCallee(); g != nil {
						if o := g.Object(); o != nil && !inModule(funcPkgPath(g)) {
							r.ext = append(r.ext, extCall{f, extName(o.(*types.Func)), ci.Pos(), isGo})
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
						if ci, isCall := in.(ssa.CallInstruction); (!isCall || ci.Common().Value != *op) && g.Object() != nil && !inModule(funcPkgPath(g)) {
							r.ext = append(r.ext, extCall{f, extName(g.Object().(*types.Func)), in.Pos(), false})
						}
					}
				}
			}
		}
	}
	sort.SliceStable(r.order, func(i, j int) bool { return fname(r.order[i]) < fname(r.order[j]) })
	return r
}

// implementors lists the module's methods an interface call may reach.
func (r *reachSet) implementors(m *types.Func) []*ssa.Function {
	if r.impls == nil {
		r.impls = map[*types.Func][]*ssa.Function{}
	}
	if fs, ok := r.impls[m]; ok {
		return fs
	}
	var out []*ssa.Function
	iface, _ := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if iface != nil {
		for _, pkg := range r.p.SSA.AllPackages() {
			if !inModule(pkg.Pkg.Path()) {
				continue
			}
			for _, mem := range pkg.Members {
				tn, ok := mem.(*ssa.Type)
				if !ok {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.IsInterface(t) || !types.Implements(t, iface) {
						continue
					}
					if s := r.p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); s != nil {
						out = append(out, r.p.SSA.MethodValue(s))
					}
				}
			}
		}
	}
	r.impls[m] = out
	return out
}

// extName names a library function or method: os.WriteFile, os.File.Write.
func extName(f *types.Func) string {
	name := f.Name()
	if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
		t := sig.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	if f.Pkg() != nil {
		return f.Pkg().Path() + "." + name
	}
	return name
}

// path tells how a function is reached.
func (r *reachSet) path(f *ssa.Function) string {
	s := fname(f)
	for n := 0; r.from[f] != nil && n < 12; n++ {
		f = r.from[f]
		s = fname(f) + " > " + s
	}
	return s
}
