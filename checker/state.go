package main

import (
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type FactSet struct {
	m      map[*Fact]struct{}
	shared bool
	vac    map[int]bool // histories: inner loops that had no finished iteration
}

// vacuous: f speaks about every iteration of a loop that was left without one.
func vacuous(f *Fact, vac map[int]bool) bool {
	if len(vac) == 0 {
		return false
	}
	for _, q := range f.quant {
		if vac[q] {
			return true
		}
	}
	return f.kind == "IMP" && vacuous(f.f, vac)
}

// intersectHist merges the finished iterations of loop id of two states; facts of the states that do
// not depend on the loop may become premises.
func (e *Eng) intersectHist(a, b *FactSet, id int, sa, sb *State) *FactSet {
	with := func(h *FactSet, s *State) *State {
		f := newFactSet()
		for x := range h.m {
			f.m[x] = struct{}{}
		}
		for x := range s.facts.m {
			if guardable(x) && !hasInt(x.loops, id) {
				f.m[x] = struct{}{}
			}
		}
		return &State{facts: f}
	}
	n := e.mergeFacts(with(a, sa), with(b, sb))
	for x := range n.m {
		if !hasInt(x.loops, id) && x.kind != "STEP" && x.kind != "INIT" {
			delete(n.m, x)
		}
	}
	for f := range a.m {
		if f.kind != "STEP" || len(f.quant) > 0 || f.a.typ == nil || !isInteger(f.a.typ) || b.has(f) {
			continue
		}
		for g := range b.m {
			if g.kind == "STEP" && g.a == f.a && len(g.quant) == 0 {
				if m := e.extremum(&State{facts: a}, &State{facts: b}, f.b, g.b, f.a.typ); m != nil {
					n.m[e.in.fact(Fact{kind: "STEP", a: f.a, b: m})] = struct{}{}
				}
			}
		}
	}
	for f := range a.m {
		if vacuous(f, b.vac) {
			n.m[f] = struct{}{}
		}
	}
	for f := range b.m {
		if vacuous(f, a.vac) {
			n.m[f] = struct{}{}
		}
	}
	for k := range a.vac {
		if b.vac[k] {
			if n.vac == nil {
				n.vac = map[int]bool{}
			}
			n.vac[k] = true
		}
	}
	return n
}

func (s *State) clearVac(id int) {
	if !s.vac[id] {
		return
	}
	n := map[int]bool{}
	for k := range s.vac {
		if k != id {
			n[k] = true
		}
	}
	s.vac = n
}

func newFactSet() *FactSet { return &FactSet{m: map[*Fact]struct{}{}} }
func (f *FactSet) has(x *Fact) bool {
	_, ok := f.m[x]
	return ok
}
func (f *FactSet) list() []*Fact {
	r := make([]*Fact, 0, len(f.m))
	for x := range f.m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// State is the abstract state on a (partitioned) path through one function context.
type State struct {
	env    map[ssa.Value]*Term
	facts  *FactSet // must hold
	may    *FactSet // may have happened (events only)
	store  map[*Term]*Term
	ver    map[string]int
	hist   map[int]*FactSet // per enclosing loop: facts that held at the end of every finished iteration; nil = no iteration yet
	defers []deferRec
	trace  []string     // branch decisions, for reports
	vac    map[int]bool // loops left without a single finished iteration on this path
}

func (s *State) setVac(id int) {
	n := map[int]bool{id: true}
	for k := range s.vac {
		n[k] = true
	}
	s.vac = n
}

type deferRec struct {
	instr ssa.CallInstruction
	args  []*Term
	fnv   *Term
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, facts: newFactSet(), may: newFactSet(), store: map[*Term]*Term{}, ver: map[string]int{}, hist: map[int]*FactSet{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)+4), store: make(map[*Term]*Term, len(s.store)), ver: make(map[string]int, len(s.ver)), hist: make(map[int]*FactSet, len(s.hist))}
	for k, v := range s.env {
		n.env[k] = v
	}
	s.facts.shared = true
	n.facts = &FactSet{m: s.facts.m, shared: true}
	s.may.shared = true
	n.may = &FactSet{m: s.may.m, shared: true}
	for k, v := range s.store {
		n.store[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.hist {
		n.hist[k] = v
	}
	n.defers = append([]deferRec{}, s.defers...)
	n.trace = s.trace
	n.vac = s.vac
	return n
}

func (f *FactSet) own() {
	if f.shared {
		m := make(map[*Fact]struct{}, len(f.m)+8)
		for k := range f.m {
			m[k] = struct{}{}
		}
		f.m = m
		f.shared = false
	}
}

func (f *FactSet) add(x *Fact) {
	if _, ok := f.m[x]; ok {
		return
	}
	f.own()
	f.m[x] = struct{}{}
}
func (f *FactSet) del(x *Fact) {
	if _, ok := f.m[x]; !ok {
		return
	}
	f.own()
	delete(f.m, x)
}

func intersect(a, b *FactSet) *FactSet {
	if len(b.m) < len(a.m) {
		a, b = b, a
	}
	n := newFactSet()
	for k := range a.m {
		if _, ok := b.m[k]; ok {
			n.m[k] = struct{}{}
		}
	}
	return n
}
func unionSets(a, b *FactSet) *FactSet {
	n := newFactSet()
	for k := range a.m {
		n.m[k] = struct{}{}
	}
	for k := range b.m {
		n.m[k] = struct{}{}
	}
	return n
}
func eqSets(a, b *FactSet) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.m) != len(b.m) || !eqVac(a.vac, b.vac) {
		return false
	}
	for k := range a.m {
		if _, ok := b.m[k]; !ok {
			return false
		}
	}
	return true
}

func eqState(a, b *State) bool {
	if len(a.env) != len(b.env) || len(a.store) != len(b.store) || len(a.ver) != len(b.ver) || len(a.hist) != len(b.hist) || len(a.defers) != len(b.defers) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.store {
		if b.store[k] != v {
			return false
		}
	}
	for k, v := range a.ver {
		if b.ver[k] != v {
			return false
		}
	}
	for k, v := range a.hist {
		w, ok := b.hist[k]
		if !ok || !eqSets(v, w) {
			return false
		}
	}
	return eqVac(a.vac, b.vac) && eqSets(a.facts, b.facts) && eqSets(a.may, b.may)
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

// low returns a lower bound implied by the type of the term.
func (e *Eng) low(t *Term) (*big.Int, bool) {
	if t == nil {
		return nil, false
	}
	switch t.op {
	case OpLen, OpCap, OpIter:
		return big.NewInt(0), true
	case OpCall:
		if t.str == "remaining" {
			return big.NewInt(0), true
		}
	case OpSum:
		if bigOf(t.val).Sign() >= 0 {
			for _, a := range t.args {
				if _, ok := e.low(a); !ok {
					return nil, false
				}
			}
			return bigOf(t.val), true
		}
	}
	if t.typ != nil && isUnsigned(t.typ) {
		return big.NewInt(0), true
	}
	return nil, false
}

// decide evaluates a fact against the facts of a state.
func (e *Eng) decide(s *State, f *Fact) tri {
	if e.cfg.Interval {
		if f.kind == "LE" || (f.kind == "EQ" || f.kind == "NE") && (f.a == nil || f.a.typ == nil || isInteger(f.a.typ)) && (f.b == nil || f.b.typ == nil || isInteger(f.b.typ)) {
			if r := e.decideIv(s, f); r != unknown {
				return r
			}
		}
	}
	switch f.kind {
	case "LE":
		if f.a == f.b { // includes nil==nil
			if f.c.Sign() >= 0 {
				return yes
			}
			return no
		}
		if f.b == nil { // a <= c
			if l, ok := e.low(f.a); ok && l.Cmp(f.c) > 0 {
				return no
			}
		}
		if f.a == nil { // 0 <= b + c  <=> b >= -c
			if l, ok := e.low(f.b); ok && l.Cmp(new(big.Int).Neg(f.c)) >= 0 {
				return yes
			}
		}
		lowB, hasLow := (*big.Int)(nil), false
		if f.a != nil && f.b != nil {
			lowB, hasLow = e.low(f.b)
		}
		for g := range s.facts.m {
			if len(g.quant) > 0 {
				continue
			}
			switch g.kind {
			case "LE":
				if g.a == f.a && g.b == f.b && g.c.Cmp(f.c) <= 0 {
					return yes
				}
				// a <= c' and b >= low: a <= b + c when c' <= low + c
				if hasLow && g.a == f.a && g.b == nil && g.c.Cmp(new(big.Int).Add(lowB, f.c)) <= 0 {
					return yes
				}
				// g: b <= a + c'  => a - b >= -c'; f: a - b <= c
				if g.a == f.b && g.b == f.a {
					if new(big.Int).Neg(g.c).Cmp(f.c) > 0 {
						return no
					}
				}
			case "EQ":
				if g.a == f.a && g.b == f.b {
					if g.c.Cmp(f.c) <= 0 {
						return yes
					}
					return no
				}
				if g.a == f.b && g.b == f.a { // b == a + c' => a - b == -c'
					if new(big.Int).Neg(g.c).Cmp(f.c) <= 0 {
						return yes
					}
					return no
				}
			}
		}
		// substitute constants known by EQ
		if fa, fb, c, ch := e.substConst(s, f); ch {
			return e.decide(s, e.in.fact(Fact{kind: "LE", a: fa, b: fb, c: c}))
		}
	case "EQ":
		r := e.decideEQ(s, f)
		return r
	case "NE":
		switch e.decideEQ(s, f) {
		case yes:
			return no
		case no:
			return yes
		}
	case "T", "F":
		t := e.in.fact(Fact{kind: "T", a: f.a})
		n := e.in.fact(Fact{kind: "F", a: f.a})
		if f.kind == "F" {
			t, n = n, t
		}
		if s.facts.has(t) {
			return yes
		}
		if s.facts.has(n) {
			return no
		}
		if f.a.op == OpIs && isConcrete(f.a.typ) {
			for g := range s.facts.m {
				if g.kind == "T" && len(g.quant) == 0 && g.a.op == OpIs && g.a.args[0] == f.a.args[0] && g.a != f.a && isConcrete(g.a.typ) {
					if f.kind == "T" {
						return no
					}
					return yes
				}
			}
		}
	default:
		if s.facts.has(f) {
			return yes
		}
	}
	return unknown
}

func isConcrete(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return !ok
}

func (e *Eng) constOf(s *State, t *Term) *big.Int {
	if t == nil {
		return nil
	}
	for g := range s.facts.m {
		if g.kind == "EQ" && len(g.quant) == 0 && g.a == t && g.b == nil {
			return g.c
		}
	}
	return nil
}

func (e *Eng) substConst(s *State, f *Fact) (*Term, *Term, *big.Int, bool) {
	a, b, c := f.a, f.b, new(big.Int).Set(f.c)
	ch := false
	if a != nil && b != nil {
		if v := e.constOf(s, a); v != nil {
			a = nil
			c.Sub(c, v)
			ch = true
		}
		if v := e.constOf(s, b); v != nil {
			b = nil
			c.Add(c, v)
			ch = true
		}
	}
	return a, b, c, ch
}

func (e *Eng) decideEQ(s *State, f *Fact) tri {
	if f.a == f.b {
		if f.c.Sign() == 0 {
			return yes
		}
		return no
	}
	if f.c.Sign() == 0 {
		if f.a != nil && f.b != nil {
			// constants (non-integer)
			if f.a.isConst() && f.b.isConst() && !f.a.isNil() && !f.b.isNil() {
				return no
			}
			x := f.a
			other := f.b
			if x.isNil() {
				x, other = other, x
			}
			if other.isNil() {
				switch e.nilness(s, x) {
				case yes:
					return yes
				case no:
					return no
				}
			}
		}
	}
	// two distinct sentinel errors
	if f.a != nil && f.b != nil && f.a.op == OpGlobal && f.b.op == OpGlobal && f.a != f.b && f.c.Sign() == 0 && e.sentinel(f.a) && e.sentinel(f.b) {
		return no
	}
	if f.b == nil {
		if l, ok := e.low(f.a); ok {
			if l.Cmp(f.c) > 0 {
				return no
			}
			if l.Cmp(f.c) == 0 && s.facts.has(e.in.fact(Fact{kind: "LE", a: f.a, c: f.c})) {
				return yes
			}
		}
	}
	for g := range s.facts.m {
		if len(g.quant) > 0 {
			continue
		}
		same := g.a == f.a && g.b == f.b
		switch g.kind {
		case "EQ":
			if same {
				if g.c.Cmp(f.c) == 0 {
					return yes
				}
				return no
			}
		case "NE":
			if same && g.c.Cmp(f.c) == 0 {
				return no
			}
		case "LE":
			if same && g.c.Cmp(f.c) < 0 { // a <= b+c' < b+c
				return no
			}
			if g.a == f.b && g.b == f.a && new(big.Int).Neg(g.c).Cmp(f.c) > 0 {
				return no
			}
			if f.b == nil && g.b == f.a && g.a != nil { // low(a)-c' <= a-c' <= x
				if l, ok := e.low(g.a); ok && new(big.Int).Sub(l, g.c).Cmp(f.c) > 0 {
					return no
				}
			}
		}
	}
	if fa, fb, c, ch := e.substConst(s, f); ch {
		g := e.in.fact(Fact{kind: "EQ", a: fa, b: fb, c: c})
		if fa == nil && fb != nil {
			g = e.in.fact(Fact{kind: "EQ", a: fb, b: nil, c: new(big.Int).Neg(c)})
		}
		return e.decideEQ(s, g)
	}
	return unknown
}

func eqVac(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}
