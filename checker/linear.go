package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
)

// Linear entailment: does a comparison follow from the facts of a state by linear arithmetic over
// the integers? The facts are the comparisons the engine collected on the way, the ranges of types,
// lengths and library results, and the progress of loop variables. Lengths are below 2^31.

type linear struct {
	c *big.Int
	m map[*Term]*big.Int
}

func newLinear(c int64) *linear { return &linear{big.NewInt(c), map[*Term]*big.Int{}} }

func (l *linear) add(o *linear, k *big.Int) *linear {
	r := &linear{new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k)), map[*Term]*big.Int{}}
	for t, v := range l.m {
		r.m[t] = v
	}
	for t, v := range o.m {
		n := new(big.Int).Mul(v, k)
		if x, ok := r.m[t]; ok {
			n.Add(n, x)
		}
		if n.Sign() == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = n
		}
	}
	return r
}

var bigMinusOne = big.NewInt(-1)

// linCtx collects the constraints a query needs. A constraint l stands for l >= 0.
type linCtx struct {
	e     *Eng
	st    *State
	cons  []*linear
	seen  map[*Term]bool
	memo  map[*Term]*linear
	depth int
	hyp   map[*Term]*big.Int // lower bounds assumed for loop variables
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	if t == nil {
		return nil, nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	w := scalarWidth(t)
	if w <= 0 {
		w = 8
	}
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(8*w)), bigOne)
	}
	hi = new(big.Int).Lsh(bigOne, uint(8*w-1))
	return new(big.Int).Neg(hi), new(big.Int).Sub(hi, bigOne)
}

func (x *linCtx) atom(t *Term) *linear {
	l := newLinear(0)
	l.m[t] = big.NewInt(1)
	if x.seen[t] {
		return l
	}
	x.seen[t] = true
	ge := func(c int64) { // t >= c
		x.cons = append(x.cons, l.add(newLinear(1), big.NewInt(-c)))
	}
	le := func(c *big.Int) {
		k := newLinear(0)
		k.c.Set(c)
		x.cons = append(x.cons, k.add(l, bigMinusOne))
	}
	switch t.op {
	case OpLen, OpCap:
		ge(0)
		le(big.NewInt(1<<31 - 1))
		if t.op == OpLen {
			x.length(t.args[0], l)
		}
	case OpIter:
		ge(0)
	case OpCall:
		switch t.str {
		case "remaining":
			ge(0)
		case "uvlen", "binary.PutUvarint":
			ge(1)
			n := int64(10)
			if t.str == "uvlen" {
				if _, hi := typeRange(stripConv(t.args[0]).typ); hi != nil {
					n = int64((hi.BitLen() + 6) / 7)
				}
			}
			le(big.NewInt(n))
		case "copy":
			ge(0)
			for _, a := range t.args {
				if b := x.lin(x.e.lenOf(x.st, a)); b != nil {
					x.cons = append(x.cons, b.add(l, bigMinusOne))
				}
			}
		default:
			if x.e.p.nils.nonneg(t.str, 0) {
				ge(0)
			}
		}
	case OpExtract:
		i := 0
		fmt.Sscan(t.str, &i)
		if t.args[0].op == OpCall && x.e.p.nils.nonneg(t.args[0].str, i) {
			ge(0)
		}
	case OpFresh:
		if h := x.hyp[t]; h != nil {
			k := newLinear(0)
			k.c.Set(h)
			x.cons = append(x.cons, l.add(k, bigMinusOne))
		} else if li := x.e.lvs[t]; li != nil && x.depth < 6 {
			x.progress(t, l, li)
		}
	}
	if lo, hi := typeRange(t.typ); lo != nil {
		if lo.Sign() >= 0 {
			ge(0)
			le(hi)
		} else if hi.BitLen() < 63 {
			k := newLinear(0)
			k.c.Set(lo)
			x.cons = append(x.cons, l.add(k, bigMinusOne))
			le(hi)
		}
	}
	return l
}

// length: what is known about the length of a sequence.
func (x *linCtx) length(s *Term, l *linear) {
	eq := func(o *linear) {
		if o != nil {
			x.cons = append(x.cons, l.add(o, bigMinusOne), o.add(l, bigMinusOne))
		}
	}
	switch s.op {
	case OpCall:
		switch s.str {
		case "hash.Hash.Sum":
			if len(s.args) > 0 && s.args[len(s.args)-1].isNil() {
				eq(newLinear(32))
			}
		}
	case OpAppend:
		o := x.lin(x.e.in.Len(s.args[0]))
		if s.args[0].isNil() {
			o = newLinear(0)
		}
		if o == nil {
			return
		}
		switch {
		case len(s.args) == 2 && s.args[1].op == OpArr:
			eq(o.add(newLinear(int64(len(s.args[1].args))), bigOne))
		case len(s.args) == 2 && arrayLen(s.args[1]) >= 0:
			eq(o.add(newLinear(arrayLen(s.args[1])), bigOne))
		case len(s.args) == 2 && x.e.seqLen(s.args[1]) != nil:
			if n := x.lin(x.e.seqLen(s.args[1])); n != nil {
				eq(o.add(n, bigOne))
			}
		default: // never shorter
			x.cons = append(x.cons, l.add(o, bigMinusOne))
		}
	case OpFresh:
		if li := x.e.lvs[s]; li != nil && x.depth < 6 {
			// a sequence a loop builds: its length is at least c before each round
			for _, c := range []int64{1, 2} {
				if x.atLeast(s, li, c) {
					x.cons = append(x.cons, l.add(newLinear(1), big.NewInt(-c)))
				} else {
					break
				}
			}
		}
	}
}

func arrayLen(t *Term) int64 {
	if t.typ == nil {
		return -1
	}
	u := t.typ.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (e *Eng) seqLen(t *Term) *Term {
	if t.op == OpMake || t.op == OpSlice {
		return e.in.Len(t)
	}
	return nil
}

// atLeast: the loop value is a sequence of at least c elements initially and after every round.
func (x *linCtx) atLeast(s *Term, li *lvInfo, c int64) bool {
	if li.init == nil || !x.e.entailsD(x.st, x.e.in.Int(c), x.e.in.Len(li.init), x.depth+2) {
		return false
	}
	for _, sp := range li.steps {
		y := &linCtx{e: x.e, st: sp.st, seen: map[*Term]bool{}, memo: map[*Term]*linear{}, depth: x.depth + 2, hyp: map[*Term]*big.Int{x.e.in.Len(s): big.NewInt(c)}}
		if !y.leq(x.e.in.Int(c), x.e.in.Len(sp.val)) {
			return false
		}
	}
	return true
}

// progress: a loop variable that is changed by a constant in every round.
func (x *linCtx) progress(t *Term, l *linear, li *lvInfo) {
	if li.init == nil || len(li.steps) == 0 {
		return
	}
	var d *big.Int
	mono := 0
	for i, sp := range li.steps {
		ts, c := x.e.in.split(sp.val)
		if len(ts) != 1 || ts[0] != t {
			mono = 2
			d = nil
			break
		}
		if i == 0 {
			d = c
		} else if d != nil && d.Cmp(c) != 0 {
			d = nil
		}
		if mono == 0 {
			mono = c.Sign()
		} else if mono != c.Sign() {
			mono = 2
		}
	}
	lp := x.e.loops[li.loop]
	in := x.lin(li.init)
	if in == nil {
		return
	}
	switch {
	case d != nil && lp != nil && lp.iter != nil:
		o := in.add(x.atom(lp.iter), d)
		x.cons = append(x.cons, l.add(o, bigMinusOne), o.add(l, bigMinusOne))
	case mono == 1:
		x.cons = append(x.cons, l.add(in, bigMinusOne))
	case mono == -1:
		x.cons = append(x.cons, in.add(l, bigMinusOne))
	default:
		// an inductive lower bound
		if isInteger(t.typ) && x.depth < 4 {
			for _, c := range []int64{1, 0} {
				if x.above(t, li, c) {
					x.cons = append(x.cons, l.add(newLinear(1), big.NewInt(-c)))
					break
				}
			}
		}
	}
}

func (x *linCtx) above(t *Term, li *lvInfo, c int64) bool {
	if !x.e.entailsD(x.st, x.e.in.Int(c), li.init, x.depth+2) {
		return false
	}
	for _, sp := range li.steps {
		y := &linCtx{e: x.e, st: sp.st, seen: map[*Term]bool{}, memo: map[*Term]*linear{}, depth: x.depth + 2, hyp: map[*Term]*big.Int{t: big.NewInt(c)}}
		if !y.leq(x.e.in.Int(c), sp.val) {
			return false
		}
	}
	return true
}

// lin writes a term as a linear expression over atoms.
func (x *linCtx) lin(t *Term) *linear {
	if t == nil {
		return newLinear(0)
	}
	if l, ok := x.memo[t]; ok {
		return l
	}
	l := x.lin1(t)
	x.memo[t] = l
	return l
}

func (x *linCtx) lin1(t *Term) *linear {
	if c, ok := t.intConst(); ok {
		l := newLinear(0)
		l.c.Set(c)
		return l
	}
	if h := x.hyp[t]; h != nil {
		l := newLinear(0)
		l.m[t] = big.NewInt(1)
		if !x.seen[t] {
			x.seen[t] = true
			k := newLinear(0)
			k.c.Set(h)
			x.cons = append(x.cons, l.add(k, bigMinusOne))
		}
		return l
	}
	unsigned := t.typ != nil && isUnsigned(t.typ)
	switch t.op {
	case OpSum:
		r := newLinear(0)
		r.c.Set(bigOf(t.val))
		for _, a := range t.args {
			r = r.add(x.lin(a), bigOne)
		}
		if unsigned && !x.inRange(r, t.typ) {
			return x.atom(t)
		}
		return r
	case OpBin:
		if len(t.args) != 2 {
			return x.atom(t)
		}
		a, b := t.args[0], t.args[1]
		c, isC := b.intConst()
		switch t.str {
		case "-":
			if unsigned && x.e.decide(x.st, x.e.in.cmpFact(token.LEQ, b, a, true, true)) != yes {
				return x.atom(t)
			}
			return x.lin(a).add(x.lin(b), bigMinusOne)
		case "*":
			if !isC {
				c, isC = a.intConst()
				a = b
			}
			if isC {
				r := newLinear(0).add(x.lin(a), c)
				if unsigned && !x.inRange(r, t.typ) {
					return x.atom(t)
				}
				return r
			}
		case "<<":
			if isC && c.IsInt64() && c.Int64() < 62 {
				r := newLinear(0).add(x.lin(a), new(big.Int).Lsh(bigOne, uint(c.Int64())))
				if unsigned && !x.inRange(r, t.typ) {
					return x.atom(t)
				}
				return r
			}
			if k, ok := a.intConst(); ok && k.Sign() > 0 && k.BitLen() < 31 && b.op == OpBin && b.str == "&" {
				if m, ok := b.args[1].intConst(); ok && m.Sign() >= 0 && m.IsInt64() && m.Int64() < 31 {
					q := x.atom(t)
					lo, hi := q.add(newLinear(0), bigOne), newLinear(0).add(q, bigMinusOne)
					lo.c.Sub(lo.c, k)
					hi.c.Add(hi.c, new(big.Int).Lsh(k, uint(m.Int64())))
					if _, max := typeRange(t.typ); max != nil && hi.c.Cmp(max) <= 0 {
						x.cons = append(x.cons, lo, hi)
					}
					return q
				}
			}
		case "/", ">>":
			if isC && c.Sign() > 0 && c.IsInt64() {
				d := c
				if t.str == ">>" {
					if c.Int64() > 62 {
						break
					}
					d = new(big.Int).Lsh(bigOne, uint(c.Int64()))
				}
				q := x.atom(t)
				la := x.lin(a)
				if x.nonneg(la) {
					// d*q <= a <= d*q + d-1, q >= 0
					x.cons = append(x.cons, la.add(q, new(big.Int).Neg(d)))
					k := newLinear(0).add(q, d).add(la, bigMinusOne)
					k.c.Add(k.c, new(big.Int).Sub(d, bigOne))
					x.cons = append(x.cons, k, q)
				}
				return q
			}
		case "%", "&":
			if isC && c.Sign() > 0 {
				q := x.atom(t)
				la := x.lin(a)
				if t.str == "&" || x.nonneg(la) {
					k := newLinear(0).add(q, bigMinusOne)
					k.c.Add(k.c, c)
					if t.str == "%" {
						k.c.Sub(k.c, bigOne)
					}
					x.cons = append(x.cons, q, k)
					if x.nonneg(la) {
						x.cons = append(x.cons, la.add(q, bigMinusOne))
					}
				}
				return q
			}
		}
	case OpConv:
		if !isInteger(t.typ) || t.args[0].typ != nil && !isInteger(t.args[0].typ) {
			return x.atom(t)
		}
		if in := x.lin(t.args[0]); in != nil && x.inRange(in, t.typ) {
			return in
		}
	}
	return x.atom(t)
}

func (x *linCtx) nonneg(l *linear) bool { return x.follows(l) }

func (x *linCtx) inRange(l *linear, t types.Type) bool {
	lo, hi := typeRange(t)
	if lo == nil {
		return false
	}
	if x.depth > 8 {
		return false
	}
	// cheap: intervals of the atoms
	mn, mx := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for a, k := range l.m {
		al, ah := atomRange(a)
		if al == nil {
			mn = nil
			break
		}
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		mn.Add(mn, new(big.Int).Mul(al, k))
		mx.Add(mx, new(big.Int).Mul(ah, k))
	}
	if mn != nil && mn.Cmp(lo) >= 0 && mx.Cmp(hi) <= 0 {
		return true
	}
	up := &linear{new(big.Int).Set(hi), map[*Term]*big.Int{}}
	dn := &linear{new(big.Int).Neg(lo), map[*Term]*big.Int{}}
	x.depth++
	defer func() { x.depth-- }()
	return x.follows(up.add(l, bigMinusOne)) && x.follows(dn.add(l, bigOne))
}

func atomRange(a *Term) (lo, hi *big.Int) {
	if a.op == OpLen || a.op == OpCap {
		return new(big.Int), big.NewInt(1<<31 - 1)
	}
	return typeRange(a.typ)
}

// follows: l >= 0 follows from the facts.
func (x *linCtx) follows(l *linear) bool {
	if x.e.late() {
		return false
	}
	if len(l.m) == 0 {
		return l.c.Sign() >= 0
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 10 {
		return false
	}
	// atoms of interest grow along the facts
	rel := map[*Term]bool{}
	for a := range l.m {
		rel[a] = true
	}
	type fl struct{ l *linear }
	var fcons []*linear
	var nes []*linear
	used := map[*Fact]bool{}
	base := len(x.cons)
	_ = base
	for round := 0; round < 4; round++ {
		n := len(rel)
		var facts []*Fact
		for f := range x.st.facts.m {
			facts = append(facts, f)
		}
		sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
		for _, f := range facts {
			if used[f] || len(f.quant) > 0 {
				continue
			}
			g := f
			if f.kind == "IMP" {
				if f.f == nil || len(f.f.quant) > 0 || len(f.g.quant) > 0 {
					continue
				}
				g = f.f
			}
			if g.kind != "LE" && g.kind != "EQ" && g.kind != "NE" {
				continue
			}
			if g.a != nil && !intTerm(g.a) || g.b != nil && !intTerm(g.b) || g.c == nil {
				continue
			}
			if !x.touches(g.a, rel) && !x.touches(g.b, rel) {
				continue
			}
			used[f] = true
			if f.kind == "IMP" && x.e.decide(x.st, f.g) != yes {
				continue
			}
			la, lb := x.lin(g.a), x.lin(g.b)
			d := lb.add(la, bigMinusOne) // b - a
			d.c = new(big.Int).Add(d.c, g.c)
			switch g.kind {
			case "LE":
				fcons = append(fcons, d)
			case "EQ":
				fcons = append(fcons, d, newLinear(0).add(d, bigMinusOne))
			case "NE":
				nes = append(nes, d)
			}
			for a := range d.m {
				rel[a] = true
			}
		}
		for _, k := range x.cons {
			hit := false
			for a := range k.m {
				hit = hit || rel[a]
			}
			if hit {
				for a := range k.m {
					rel[a] = true
				}
			}
		}
		if len(rel) == n {
			break
		}
	}
	all := append(append([]*linear{}, fcons...), x.cons...)
	for _, d := range nes {
		// d != 0, and one of d >= 0, d <= 0 is known
		pos, neg := fmEntails(all, d), false
		if !pos {
			neg = fmEntails(all, newLinear(0).add(d, bigMinusOne))
		}
		if pos {
			all = append(all, d.add(newLinear(1), bigMinusOne))
		} else if neg {
			all = append(all, newLinear(-1).add(d, bigMinusOne))
		}
	}
	return fmEntails(all, l)
}

func intTerm(t *Term) bool {
	if t.op == OpConst {
		_, ok := t.intConst()
		return ok
	}
	if t.op == OpLen || t.op == OpCap || t.op == OpSum || t.op == OpIter {
		return true
	}
	return t.typ != nil && isInteger(t.typ)
}

func (x *linCtx) touches(t *Term, rel map[*Term]bool) bool {
	if t == nil {
		return false
	}
	if rel[t] {
		return true
	}
	switch t.op {
	case OpSum, OpBin, OpConv, OpUn:
		for _, a := range t.args {
			if x.touches(a, rel) {
				return true
			}
		}
	}
	return false
}

// fmEntails decides by Fourier-Motzkin elimination with integer tightening whether goal >= 0 follows
// from the constraints: it shows that the constraints and goal <= -1 have no solution.
func fmEntails(cons []*linear, goal *linear) bool {
	neg := newLinear(-1).add(goal, bigMinusOne)
	// keep what is connected with the goal
	rel := map[*Term]bool{}
	for a := range neg.m {
		rel[a] = true
	}
	in := make([]bool, len(cons))
	for changed := true; changed; {
		changed = false
		for i, k := range cons {
			if in[i] {
				continue
			}
			hit := len(k.m) == 0
			for a := range k.m {
				hit = hit || rel[a]
			}
			if hit {
				in[i], changed = true, true
				for a := range k.m {
					rel[a] = true
				}
			}
		}
	}
	set := []*linear{tighten(neg)}
	for i, k := range cons {
		if in[i] {
			set = append(set, tighten(k))
		}
	}
	for {
		seen := map[string]bool{}
		var u []*linear
		count := map[*Term][2]int{}
		for _, k := range set {
			if len(k.m) == 0 {
				if k.c.Sign() < 0 {
					return true
				}
				continue
			}
			s := k.key()
			if seen[s] {
				continue
			}
			seen[s] = true
			u = append(u, k)
			for a, v := range k.m {
				c := count[a]
				if v.Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				count[a] = c
			}
		}
		if len(u) == 0 {
			return false
		}
		var best *Term
		bn := 0
		for a, c := range count {
			n := c[0]*c[1] - c[0] - c[1]
			if best == nil || n < bn || n == bn && a.id < best.id {
				best, bn = a, n
			}
		}
		var ps, ns, rest []*linear
		for _, k := range u {
			switch v := k.m[best]; {
			case v == nil:
				rest = append(rest, k)
			case v.Sign() > 0:
				ps = append(ps, k)
			default:
				ns = append(ns, k)
			}
		}
		if len(ps)*len(ns)+len(rest) > 600 {
			return false
		}
		set = rest
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.m[best], new(big.Int).Neg(n.m[best])
				set = append(set, tighten(newLinear(0).add(p, b).add(n, a)))
			}
		}
	}
}

func (l *linear) key() string {
	var ts []*Term
	for a := range l.m {
		ts = append(ts, a)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	s := l.c.String()
	for _, a := range ts {
		s += "," + big.NewInt(int64(a.id)).String() + "*" + l.m[a].String()
	}
	return s
}

func tighten(l *linear) *linear {
	if len(l.m) == 0 {
		return l
	}
	g := new(big.Int)
	for _, v := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	if g.Cmp(bigOne) <= 0 {
		return l
	}
	r := &linear{new(big.Int), map[*Term]*big.Int{}}
	for a, v := range l.m {
		r.m[a] = new(big.Int).Quo(v, g)
	}
	m := new(big.Int)
	r.c.DivMod(l.c, g, m) // floor
	return r
}

func (x *linCtx) leq(a, b *Term) bool {
	la, lb := x.lin(a), x.lin(b)
	return x.follows(lb.add(la, bigMinusOne))
}

func (e *Eng) entailsD(st *State, a, b *Term, depth int) bool {
	if e.decide(st, e.in.cmpFact(token.LEQ, a, b, true, true)) == yes {
		return true
	}
	x := &linCtx{e: e, st: st, seen: map[*Term]bool{}, memo: map[*Term]*linear{}, depth: depth}
	return x.leq(a, b)
}

// entails: a <= b follows from the facts of the state.
func (e *Eng) entails(st *State, a, b *Term) bool { return e.entailsD(st, a, b, 0) }

// lenOf is the length of a sequence, an array or a pointer to an array.
func (e *Eng) lenOf(st *State, t *Term) *Term {
	if typ := t.typ; typ != nil {
		if a, ok := derefType(typ).Underlying().(*types.Array); ok {
			return e.in.BigInt(big.NewInt(a.Len()))
		}
	}
	return e.in.Len(t)
}
