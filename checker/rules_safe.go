package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// No input of a peer ends the program. Every instruction that may panic, in every function that may
// run in the node, is an obligation. It is discharged in the function itself for all its
// arguments, or, when that fails, in every place the function is called from.

type hazSite struct {
	in   ssa.Instruction
	kind string
}

type safeMode struct {
	stream bool
	blocks int // callees of at most so many blocks are followed
}

var safeModes = []safeMode{{false, 0}, {true, 0}, {false, 4}, {true, 4}, {true, 10}, {false, 20}, {false, 60}}

type safeAna struct {
	c       *Ctx
	r       *reachSet
	callers map[*ssa.Function][]*ssa.Function
	escapes map[*ssa.Function]bool
	exempt  map[*ssa.Function]string
	runs    int
	end     time.Time // when the search for discharging contexts is given up
	memo    map[string]map[*ssa.Function]map[hazSite]string
	sites   map[*ssa.Function]int
}

// left out: what these functions compute is arithmetic whose safety rests on invariants of the data
// (lengths of windows of the stored chain, powers of two) that no comparison in the code states.
var safeExempt = map[string]string{
	"config.Network.nextDifficultyV1": "difficulty formula",
	"config.Network.nextDifficultyV2": "difficulty formula",
	"config.Network.nextDifficultyV3": "difficulty formula",
	"config.Network.nextDifficultyV4": "difficulty formula",
	"config.Network.nextDifficultyV5": "difficulty formula",
	"crypto.HashList.MerkleRootHash":  "tree of hashes",
	"config.Network.MaxBlockSize":     "decided by its own rule",
}

func (c *Ctx) noPanics() {
	p := c.p
	var roots []*ssa.Function
	for _, x := range [][3]string{{"p2p", "Node", "Run"}} {
		if f := c.fn(x[0], x[1], x[2]); f != nil {
			roots = append(roots, f)
		}
	}
	a := &safeAna{c: c, end: time.Now().Add(330 * time.Second), r: p.reach(roots...), callers: map[*ssa.Function][]*ssa.Function{}, escapes: map[*ssa.Function]bool{}, exempt: map[*ssa.Function]string{}, memo: map[string]map[*ssa.Function]map[hazSite]string{}, sites: map[*ssa.Function]int{}}
	for _, f := range roots {
		a.escapes[f] = true
	}
	for _, g := range a.r.order {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						callee = ci.Common().Value
						if _, isMC := callee.(*ssa.MakeClosure); !isMC {
							a.callers[f] = append(a.callers[f], g)
							if _, isGo := in.(*ssa.Go); isGo {
								a.escapes[f] = true
							}
						}
					}
					if ci.Common().IsInvoke() {
						for _, f := range a.r.implementors(ci.Common().Method) {
							a.escapes[f] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && *op != callee {
						if f, ok := (*op).(*ssa.Function); ok {
							a.escapes[f] = true
						}
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for _, f := range a.r.order {
		if f.Synthetic != "" || !inModule(funcPkgPath(f)) {
			continue
		}
		if strings.HasPrefix(fname(f), "edwards25519.") {
			a.exempt[f] = "curve arithmetic"
		} else if why, ok := safeExempt[fname(f)]; ok {
			a.exempt[f] = why
		}
		fs = append(fs, f)
	}
	// what only runs inside an exempt function is part of it
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			if a.exempt[f] != "" {
				continue
			}
			if f.Parent() != nil && a.exempt[f.Parent()] != "" {
				a.exempt[f], changed = a.exempt[f.Parent()], true
				continue
			}
			if len(a.callers[f]) == 0 || a.escapes[f] && f.Signature.Recv() == nil {
				continue
			}
			all := true
			for _, g := range a.callers[f] {
				all = all && (a.exempt[g] != "" || g == f)
			}
			if all {
				a.exempt[f], changed = a.exempt[a.callers[f][0]], true
			}
		}
	}
	nf := 0
	for _, f := range fs {
		if a.exempt[f] != "" || os.Getenv("KC_ONLY") != "" && os.Getenv("KC_ONLY") != fname(f) {
			continue
		}
		nf++
		open := a.own(f)
		if len(open) > 0 {
			open = a.lift(f, open, nil)
		}
		var sites []hazSite
		for s := range open {
			sites = append(sites, s)
		}
		sort.Slice(sites, func(i, j int) bool { return sites[i].in.Pos() < sites[j].in.Pos() })
		for _, s := range sites {
			c.ob("no-panic", fname(f)+" "+s.kind, s.in.Pos(), false, open[s]+" ("+a.r.path(f)+")")
		}
		if len(open) == 0 {
			c.ob("no-panic", fname(f), f.Pos(), true, fmt.Sprintf("%d instructions that may panic", a.sites[f]))
		}
		c.counts["instructions that may panic"] += a.sites[f]
	}
	c.counts["functions"] += nf
	c.need("functions reachable from the node", nf, 100)
	c.need("instructions that may panic", c.counts["instructions that may panic"], 400)
}

// outcome runs fn with some callees followed and tells which hazards of the functions in want remain.
func (a *safeAna) outcome(fn *ssa.Function, m safeMode, opened []*ssa.Function) map[*ssa.Function]map[hazSite]string {
	key := fmt.Sprintf("%p %v", fn, m)
	for _, o := range opened {
		key += fmt.Sprintf(" %p", o)
	}
	if r, ok := a.memo[key]; ok {
		return r
	}
	a.runs++
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); os.Getenv("KC_TIME") != "" && d > 300*time.Millisecond {
			fmt.Println("TIME", d, fname(fn), m, len(opened))
		}
	}()
	isOpen := map[*ssa.Function]bool{fn: true}
	for _, o := range opened {
		isOpen[o] = true
	}
	cfg := EngCfg{Hazards: true, Interval: true, Streams: m.stream, PathMode: m.stream,
		Opaque: func(g *ssa.Function) bool {
			return !isOpen[g] && g.Parent() == nil && (len(g.Blocks) > m.blocks || strings.HasPrefix(fname(g), "edwards25519."))
		},
		Impure: writes,
		Track:  func(string) bool { return false },
	}
	e := NewEng(a.c.p, cfg)
	e.budget = 20000
	e.deadline = time.Now().Add(30 * time.Second)
	if m.blocks > 20 {
		e.deadline = time.Now().Add(80 * time.Second)
	}
	if e.deadline.After(a.end) && (m.blocks > 0 || len(opened) > 0) {
		if time.Now().After(a.end) {
			return nil
		}
		e.deadline = a.end
	}
	if m.blocks > 20 {
		e.budget = 4000
	}
	args := e.rootArgs(fn)
	st := newState()
	if sp := fn.Pkg; sp != nil && m.stream {
		e.importGlobals(sp, st)
	}
	var binds []*Term
	if fn.Parent() != nil {
		binds = a.sortSeed(e, fn, args, st)
	}
	e.call(fn, args, binds, st, "", nil, true, 0)
	for f := range e.fns {
		a.c.fns[f] = true
	}
	var res map[*ssa.Function]map[hazSite]string
	if len(e.problems) == 0 {
		res = map[*ssa.Function]map[hazSite]string{fn: {}}
		for _, o := range opened {
			res[o] = map[hazSite]string{}
		}
		for _, o := range e.obs {
			if o.name != "hazard" || !isOpen[o.fn] {
				continue
			}
			s := hazSite{o.in, o.haz.kind + ":" + o.haz.note}
			if o.in.Pos() == token.NoPos && o.haz.kind == "panic" {
				continue // a select statement with no case left
			}
			if old, seen := res[o.fn][s]; seen && old != "" {
				continue
			}
			ok, why := false, "not decided in time"
			if !e.late() {
				ok, why = e.safe(o)
			}
			if ok {
				why = ""
			} else if os.Getenv("KC_DUMP") == "no-panic" {
				fmt.Println("---", fname(fn), m, fname(o.fn), a.c.p.At(o.pos), why)
				dumpFacts("no-panic", o.st, nil)
			}
			res[o.fn][s] = why
		}
	}
	a.memo[key] = res
	return res
}

// own: the hazards of f that are not discharged in f itself.
func (a *safeAna) own(f *ssa.Function) map[hazSite]string {
	var open map[hazSite]string
	for _, m := range safeModes {
		res := a.outcome(f, m, nil)
		if res == nil {
			continue
		}
		if open == nil {
			open = map[hazSite]string{}
			for s, why := range res[f] {
				a.sites[f]++
				if why != "" {
					open[s] = why
				}
			}
		} else {
			for s := range open {
				if res[f][s] == "" {
					delete(open, s)
				}
			}
		}
		if len(open) == 0 {
			break
		}
	}
	return open
}

// lift: the hazards among open that are not discharged in every caller of f either.
func (a *safeAna) lift(f *ssa.Function, open map[hazSite]string, via []*ssa.Function) map[hazSite]string {
	top := f
	if len(via) > 0 {
		top = via[len(via)-1]
	}
	if a.escapes[top] || len(a.callers[top]) == 0 || len(via) > 3 {
		return open
	}
	left := map[hazSite]string{}
	seen := map[*ssa.Function]bool{}
	for _, g := range a.callers[top] {
		if seen[g] || g == top {
			continue
		}
		seen[g] = true
		here := map[hazSite]string{}
		for s, why := range open {
			here[s] = why
		}
		opened := append([]*ssa.Function{f}, via...)
		for _, m := range safeModes {
			if m.blocks > 20 && len(via) > 0 || m.blocks == 20 && len(via) > 1 {
				continue
			}
			res := a.outcome(g, m, opened)
			if res == nil {
				continue
			}
			for s := range here {
				why, seen := res[f][s]
				if why == "" && (seen || a.called(f, res)) {
					delete(here, s)
				} else if why != "" {
					here[s] = why
				}
			}
			if len(here) == 0 {
				break
			}
		}
		if len(here) > 0 {
			here = a.lift(f, here, append(append([]*ssa.Function{}, via...), g))
		}
		for s, why := range here {
			left[s] = why
		}
	}
	return left
}

// called: the run went through f at all.
func (a *safeAna) called(f *ssa.Function, res map[*ssa.Function]map[hazSite]string) bool {
	return len(res[f]) > 0
}

// sortSeed: the arguments of a comparison passed to a sorting function are positions of the sorted
// sequence.
func (a *safeAna) sortSeed(e *Eng, fn *ssa.Function, args []*Term, st *State) []*Term {
	var binds []*Term
	for _, f := range fn.FreeVars {
		binds = append(binds, e.in.mk(Term{op: OpFresh, str: "free:" + f.Name(), typ: f.Type()}))
	}
	var mc *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.MakeClosure); ok && x.Fn == fn {
				if mc != nil {
					return binds
				}
				mc = x
			}
		}
	}
	if mc == nil || mc.Referrers() == nil {
		return binds
	}
	var seq ssa.Value
	for _, ref := range *mc.Referrers() {
		var c *ssa.Call
		switch x := ref.(type) {
		case *ssa.Call:
			c = x
		case *ssa.DebugRef:
			continue
		default:
			return binds
		}
		g := c.Call.StaticCallee()
		if g == nil || funcPkgPath(g) != "sort" || !strings.HasPrefix(g.Name(), "Slice") || seq != nil {
			return binds
		}
		seq = c.Call.Args[0]
	}
	var eval func(v ssa.Value) *Term
	eval = func(v ssa.Value) *Term {
		for i, b := range mc.Bindings {
			if b == v {
				return binds[i]
			}
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return eval(x.X)
		case *ssa.ChangeType:
			return eval(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if y := eval(x.X); y != nil {
					return e.load(st, y)
				}
			}
		}
		return nil
	}
	t := eval(seq)
	if t == nil {
		return binds
	}
	for _, p := range args {
		if p.typ != nil && isInteger(p.typ) {
			e.assume(st, e.in.cmpFact(token.LEQ, e.in.Int(0), p, true, true))
			e.assume(st, e.in.cmpFact(token.LSS, p, e.in.Len(t), true, true))
		}
	}
	return binds
}

// writes: the opaque functions that may change what their arguments refer to (other than caches).
func writes(n string) bool {
	if strings.HasPrefix(n, "cryptonote.") {
		return !onlyReads(n)
	}
	return !strings.HasPrefix(n, "config.") && !strings.HasPrefix(n, "utils.") && !strings.HasPrefix(n, "crypto.Hash.")
}

func onlyReads(n string) bool {
	m := strings.ToLower(n[strings.LastIndex(n, ".")+1:])
	for _, w := range []string{"pushblock", "init", "deserialize", "addblock", "set", "write", "read"} {
		if strings.HasPrefix(m, w) {
			return false
		}
	}
	return true
}

func init() {
	register("R01", "Nothing a peer sends crashes the node", "every instruction that may panic in a function reachable from the node is discharged by facts that hold on every path to it", nil, func(c *Ctx) { c.noPanics() })
}
