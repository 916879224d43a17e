package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Contents of package variables that only the package initialiser writes.

// constGlobal: no instruction outside the initialisers may write the variable or anything read from it.
func (p *Prog) constGlobal(g *ssa.Global) bool {
	if p.globConst == nil {
		p.globConst = map[*ssa.Global]bool{}
		bad := map[*ssa.Global]bool{}
		seen := map[*ssa.Global]bool{}
		for _, fn := range p.Funcs {
			if isInit(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							seen[g] = true
							if !readsOnly(i, g, 0) {
								bad[g] = true
							}
						}
					}
				}
			}
		}
		for g := range bad {
			p.globConst[g] = false
		}
		for g := range seen {
			if !bad[g] {
				p.globConst[g] = true
			}
		}
	}
	v, ok := p.globConst[g]
	return ok && v
}

func isInit(fn *ssa.Function) bool {
	return fn.Synthetic == "package initializer" || fn.Name() == "init"
}

// readsOnly: the instruction using address or reference v does not write through it or let it escape to a writer.
func readsOnly(i ssa.Instruction, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	follow := func(x ssa.Value) bool {
		if plain(x.Type()) {
			return true
		}
		for _, r := range *x.Referrers() {
			if !readsOnly(r, x, d+1) {
				return false
			}
		}
		return true
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		return follow(x)
	case *ssa.IndexAddr:
		return x.Index == v || follow(x)
	case *ssa.FieldAddr:
		return follow(x)
	case *ssa.Slice:
		return follow(x)
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Extract, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Return:
		return true
	case *ssa.Phi:
		return false
	case *ssa.Store:
		if x.Addr == v {
			return false
		}
		return plain(v.Type()) // a copy
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "copy":
				return x.Call.Args[0] != v
			}
		}
		if f := x.Call.StaticCallee(); f != nil && inModule(funcPkgPath(f)) && len(f.Blocks) > 0 && len(f.Params) == len(x.Call.Args) {
			for i, a := range x.Call.Args {
				if a == v && !follow(f.Params[i]) {
					return false
				}
			}
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && funcPkgPath(f) == "bytes" && f.Signature.Recv() == nil {
			switch f.Name() {
			case "Compare", "Equal", "HasPrefix", "Contains", "Index":
				return true
			}
		}
		return false
	}
	return false
}

// plain: a value of this type refers to nothing else.
func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return plain(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// importGlobals evaluates the package initialiser and enters the contents of the constant variables.
func (e *Eng) importGlobals(pkg *ssa.Package, st *State) {
	if pkg == nil {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	sub := NewEng(e.p, EngCfg{PathMode: true, Opaque: func(f *ssa.Function) bool { return true }})
	sub.in = e.in
	s0 := newState()
	fr := &frame{e: sub}
	if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
		s0.store[fr.val(s0, g)] = e.in.Bool(false)
	}
	outs := sub.Run(init, nil, s0)
	if len(outs) != 1 || len(sub.problems) > 0 {
		return
	}
	for k, v := range outs[0].st.store {
		r := placeRoot(k)
		if r.op == OpGlobal {
			g, _ := e.globalOf(r)
			if g == nil || !e.p.constGlobal(g) {
				continue
			}
		}
		st.store[k] = v
	}
}
