package main

import (
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// gate: the function whose answer a rule relies on can give the negative answer. A function whose
// every return is the same constant decides nothing.
func (c *Ctx) gate(rule, pkg, typ, name string) {
	c.gateAt(rule, pkg, typ, name, -1)
}

// gateAt looks at result number k (-1: the last one).
func (c *Ctx) gateAt(rule, pkg, typ, name string, k int) {
	fn := c.fn(pkg, typ, name)
	if fn == nil {
		return
	}
	c.fns[fname(fn)] = true
	seen := map[string]bool{}
	var visit func(v ssa.Value, d int, done map[ssa.Value]bool)
	visit = func(v ssa.Value, d int, done map[ssa.Value]bool) {
		if done[v] {
			return
		}
		done[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				seen["nil"] = true
			} else if x.Value.Kind() == constant.Bool {
				seen[x.Value.String()] = true
			} else {
				seen["value"] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e, d, done)
			}
		case *ssa.ChangeInterface:
			visit(x.X, d, done)
		default:
			// a computed answer is taken to be able to take both values
			seen["a"], seen["b"] = true, true
		}
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			i := k
			if i < 0 {
				i = len(r.Results) - 1
			}
			visit(r.Results[i], 0, map[ssa.Value]bool{})
		}
	}
	c.ob(rule, fname(fn), fn.Pos(), len(seen) > 1, "every return of the function gives the same constant answer: the check that relies on it never refuses anything")
}
