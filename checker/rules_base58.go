package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Rules about the base58 text encoding. Blocks have at most 8 bytes or 11 characters: each length is analysed
// on its own, the loops run round by round.

var (
	b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	b58Bytes    = map[int64]int64{2: 1, 3: 2, 5: 3, 6: 4, 7: 5, 9: 6, 10: 7, 11: 8}
	b58Chars    = map[int64]int64{1: 2, 2: 3, 3: 5, 4: 6, 5: 7, 6: 9, 7: 10, 8: 11}
	b58Full     = EngCfg{Streams: true, PathMode: true, Unroll: true, Fields: true}
	u64Max      = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 64), bigOne)
)

func pow58(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(58), big.NewInt(n), nil) }
func pow256(n int64) *big.Int {
	return new(big.Int).Lsh(bigOne, uint(8*n))
}

// seedLength: the parameter is the first n elements of something.
func seedLength(arg int, n int64) Seed {
	return func(e *Eng, args []*Term, st *State) {
		args[arg] = e.in.mk(Term{op: OpSlice, args: []*Term{args[arg], e.in.Nil(), e.in.Int(n)}, typ: args[arg].typ})
	}
}

// linear: a sum of multiples; the coefficients by term.
func (e *Eng) linear(t *Term) (map[*Term]*big.Int, *big.Int) {
	ts, c := e.in.split(stripConv(t))
	r := map[*Term]*big.Int{}
	add := func(x *Term, n *big.Int) {
		if r[x] == nil {
			r[x] = new(big.Int)
		}
		r[x].Add(r[x], n)
	}
	c = new(big.Int).Set(c)
	for _, x := range ts {
		x = stripConv(x)
		if x.op == OpBin && x.str == "*" {
			k, ok := x.args[0].intConst()
			y := x.args[1]
			if !ok {
				k, ok = x.args[1].intConst()
				y = x.args[0]
			}
			if ok {
				m, mc := e.linear(y)
				for z, n := range m {
					add(z, new(big.Int).Mul(n, k))
				}
				c.Add(c, mc.Mul(mc, k))
				continue
			}
		}
		add(x, bigOne)
	}
	return r, c
}

// charValue: t is the value of character number i, looked up in a map.
func charValue(t, s *Term) (m *Term, i int64, ok bool) {
	t = stripConv(t)
	if t.op == OpExtract && t.str == "0" && len(t.args) == 1 {
		t = t.args[0]
	}
	if len(t.args) < 2 || t.args[1] == nil {
		return
	}
	k := stripConv(t.args[1])
	if k.op != OpElem || k.args[0] != s {
		return
	}
	n, isC := k.args[1].intConst()
	if !isC {
		return
	}
	return t.args[0], n.Int64(), true
}

// b58Map: the map is the inverse of the alphabet, from the text of its literal.
func (c *Ctx) b58Map(e *Eng, st *State, pkg *ssa.Package, m *Term) bool {
	for _, mem := range pkg.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || !c.p.constGlobal(g) {
			continue
		}
		if v := st.store[(&frame{e: e}).val(st, g)]; v != m {
			continue
		}
		got := c.mapLiteral(g)
		if len(got) != 58 {
			return false
		}
		for i, ch := range b58Alphabet {
			if n, ok := got[int64(ch)]; !ok || n != int64(i) {
				return false
			}
		}
		return true
	}
	return false
}

// mapLiteral: the constant entries of the literal a variable is initialised with.
func (c *Ctx) mapLiteral(g *ssa.Global) map[int64]int64 {
	var r map[int64]int64
	for _, p := range c.p.Pkgs {
		if p.Types != g.Pkg.Pkg {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				vs, ok := n.(*ast.ValueSpec)
				if !ok {
					return true
				}
				for i, name := range vs.Names {
					if p.TypesInfo.Defs[name] != g.Object() || i >= len(vs.Values) {
						continue
					}
					lit, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
					if !ok {
						continue
					}
					r = map[int64]int64{}
					for _, el := range lit.Elts {
						kv, ok := el.(*ast.KeyValueExpr)
						if !ok {
							r = nil
							return false
						}
						k, ok1 := constInt(p.TypesInfo.Types[kv.Key].Value)
						v, ok2 := constInt(p.TypesInfo.Types[kv.Value].Value)
						if !ok1 || !ok2 {
							r = nil
							return false
						}
						r[k] = v
					}
				}
				return true
			})
		}
	}
	return r
}

func constInt(v constant.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(v))
}

type b58Block struct {
	r    *Run
	o    Out
	k    int64 // characters
	size int64 // bytes, -1 when there is no such block
	maps map[*Term]bool
}

// value: a sum of at most all digits, each with its weight; how many digits it lacks.
func (b *b58Block) digits(t *Term) (got map[int64]bool, ok bool) {
	co, k := b.r.e.linear(t)
	if k.Sign() != 0 || len(co) == 0 {
		return nil, false
	}
	got = map[int64]bool{}
	for x, n := range co {
		m, i, is := charValue(x, b.r.pm.params["b"])
		if !is || i < 0 || i >= b.k || got[i] || n.Cmp(pow58(b.k-1-i)) != 0 {
			return nil, false
		}
		b.maps[m] = true
		got[i] = true
	}
	return got, true
}

func (b *b58Block) found(i int64, want bool) bool {
	for _, f := range b.o.st.facts.list() {
		if (f.kind == "T") != want || f.kind != "T" && f.kind != "F" || f.a.op != OpCall && f.a.op != OpExtract && len(f.a.args) < 2 {
			continue
		}
		x := f.a
		if x.op == OpExtract && len(x.args) == 1 {
			x = x.args[0]
		}
		if len(x.args) < 2 {
			continue
		}
		k := stripConv(x.args[1])
		if k.op == OpElem && k.args[0] == b.r.pm.params["b"] {
			if n, ok := k.args[1].intConst(); ok && (n.Int64() == i || i < 0) {
				b.maps[x.args[0]] = true
				return true
			}
		}
	}
	return false
}

// accepted: the bytes are those of the number the digits stand for.
func (b *b58Block) accepted() string {
	e, st := b.r.e, b.o.st
	if b.size < 0 {
		return fmt.Sprintf("a block of %d characters is accepted", b.k)
	}
	seq, ok := e.byteSeq(st, b.o.res[0])
	if !ok || int64(len(seq)) != b.size {
		return fmt.Sprintf("the result does not have %d bytes", b.size)
	}
	var a *Term
	find := func(t *Term) {
		walkTerm(t, func(x *Term) {
			if a == nil && (x.op == OpSum || b.k == 1) {
				if g, ok := b.digits(x); ok && int64(len(g)) == b.k {
					a = x
				}
			}
		})
	}
	for _, t := range seq {
		find(t)
	}
	for _, f := range st.facts.list() {
		find(f.a)
		find(f.b)
	}
	if a == nil {
		return "the bytes are not those of a number with every digit in its place"
	}
	for i := int64(0); i < b.k; i++ {
		if !b.found(i, true) {
			return fmt.Sprintf("character %d was not found in the alphabet", i)
		}
	}
	lim := new(big.Int).Sub(pow256(b.size), bigOne)
	byteOf := func(k int64) *Term {
		return e.in.mk(Term{op: OpCall, str: "byteat", args: []*Term{a, e.in.Int(k)}, typ: types.Typ[types.Uint8]})
	}
	small := e.decide(st, e.leq(a, e.in.BigInt(u64Max))) == yes || b.k < 11
	for k := b.size; k < 8; k++ {
		small = small && e.decide(st, e.equ(byteOf(k), e.in.Int(0))) == yes
	}
	if !small && e.decide(st, e.leq(a, e.in.BigInt(lim))) != yes {
		return "a number too large for the block is accepted"
	}
	if top := pow58(b.k - 1); new(big.Int).Mul(top, big.NewInt(57)).Cmp(u64Max) > 0 && !b.noWrap(top, a) {
		return "the first digit may overflow the number"
	}
	for j, t := range seq {
		k := b.size - 1 - int64(j)
		want := byteOf(k)
		if t == want || eqBits(fit(e.bits(st, t), 8), e.bits(st, want)) || isZeroInt(t) && e.decide(st, e.equ(want, e.in.Int(0))) == yes {
			continue
		}
		return fmt.Sprintf("byte %d is not the one of the number", j)
	}
	return ""
}

// mulCheck: the fact compares (c*x)/c with x.
func (b *b58Block) mulCheck(f *Fact, c *big.Int) bool {
	if f.a == nil || f.b == nil || f.c != nil && f.c.Sign() != 0 {
		return false
	}
	for _, p := range [][2]*Term{{f.a, f.b}, {f.b, f.a}} {
		q := stripConv(p[0])
		if q.op == OpBin && q.str == "/" {
			d, ok := q.args[1].intConst()
			co, k := b.r.e.linear(q.args[0])
			if ok && d.Cmp(c) == 0 && k.Sign() == 0 && len(co) == 1 && co[stripConv(p[1])] != nil && co[stripConv(p[1])].Cmp(c) == 0 {
				return true
			}
		}
	}
	return false
}

// topDigit: the fact is about the first character.
func (b *b58Block) topDigit(f *Fact) bool {
	for _, t := range []*Term{f.a, f.b} {
		if _, i, ok := charValue(t, b.r.pm.params["b"]); ok && i == 0 {
			return true
		}
	}
	return false
}

func (b *b58Block) noWrap(c *big.Int, a *Term) bool {
	for _, f := range b.o.st.facts.list() {
		if f.kind == "EQ" && b.mulCheck(f, c) && b.topDigit(f) {
			return true
		}
	}
	co, _ := b.r.e.linear(a)
	for x, n := range co {
		if n.Cmp(c) == 0 && b.r.e.decide(b.o.st, b.r.e.leq(x, b.r.e.in.BigInt(new(big.Int).Div(u64Max, c)))) == yes {
			return true
		}
	}
	return false
}

// refused: one of the reasons.
func (b *b58Block) refused() bool {
	e, st := b.r.e, b.o.st
	if b.size < 0 || b.found(-1, false) {
		return true
	}
	for _, f := range st.facts.list() {
		if f.kind == "NE" {
			for j := int64(0); j < b.k; j++ {
				// below the eleventh digit a product never overflows
				if b.mulCheck(f, pow58(j)) && (j < 10 || b.topDigit(f)) {
					return true
				}
			}
		}
		for _, t := range []*Term{f.a, f.b} {
			bad := false
			walkTerm(t, func(x *Term) {
				if x.op == OpCall && x.str == "byteat" {
					if g, ok := b.digits(x.args[0]); ok && int64(len(g)) == b.k {
						if n, _ := x.args[1].intConst(); n != nil && n.Int64() >= b.size && e.decide(st, e.equ(x, e.in.Int(0))) == no {
							bad = true
						}
					}
				}
			})
			if bad {
				return true
			}
			if t == nil {
				continue
			}
			if _, ok := b.digits(t); ok {
				if e.decide(st, e.leq(e.in.BigInt(pow256(b.size)), t)) == yes {
					return true
				}
				// one digit alone may be too much
				co, _ := e.linear(t)
				if len(co) == 1 {
					for _, n := range co {
						x := new(big.Int).Div(new(big.Int).Add(u64Max, n), n)
						if n.Cmp(bigOne) != 0 && e.decide(st, e.leq(e.in.BigInt(x), t)) == yes && new(big.Int).Mul(x, n).Cmp(pow256(b.size)) >= 0 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) base58Rules() {
	c.base58Decode()
	c.base58Encode()
	c.base58Whole()
}

func (c *Ctx) base58Decode() {
	fn := c.fn("crypto/base58", "", "decodeBlock")
	if fn == nil {
		return
	}
	con := fname(fn)
	for k := int64(1); k <= 11; k++ {
		r := c.run(fmt.Sprintf("%d characters", k), fn, b58Full, []string{"b"}, seedLength(0, k), func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
		if r == nil {
			return
		}
		b := &b58Block{r: r, k: k, size: -1, maps: map[*Term]bool{}}
		if s, ok := b58Bytes[k]; ok {
			b.size = s
		}
		bad, worst := "", token.NoPos
		say := func(o Out, s string) {
			if bad == "" {
				dumpFacts("base58-decode", o.st, nil)
				bad, worst = s, o.pos
			}
		}
		acc := 0
		for _, o := range r.outs {
			b.o = o
			switch {
			case o.panicked:
				say(o, "the block makes the decoder panic")
			case r.isSuccess(o):
				acc++
				if s := b.accepted(); s != "" {
					say(o, s)
				}
			case !b.refused():
				say(o, "a block which may be right is refused")
			}
		}
		if bad == "" && b.size >= 0 && acc == 0 {
			bad, worst = "no block is accepted", fn.Pos()
		}
		if len(r.outs) > 0 {
			for m := range b.maps {
				if bad == "" && !c.b58Map(r.e, r.outs[0].st, fn.Pkg, m) {
					bad, worst = "the table of digits is not the inverse of the alphabet", fn.Pos()
				}
			}
		}
		c.ob("base58-decode", fmt.Sprintf("%s (%d characters)", con, k), worst, bad == "", bad)
	}
}

func (c *Ctx) base58Encode() {
	fn := c.fn("crypto/base58", "", "encodeBlock")
	if fn == nil {
		return
	}
	for k := int64(1); k <= 9; k++ {
		seed := seedLength(0, k)
		n := k
		if k == 9 {
			// more than a block: the first eight bytes
			n = 8
			seed = func(e *Eng, args []*Term, st *State) { st.facts.add(e.leq(e.in.Int(9), e.in.Len(args[0]))) }
		}
		r := c.run(fmt.Sprintf("%d bytes", k), fn, b58Full, []string{"src"}, seed, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
		if r == nil {
			return
		}
		bad, worst := "", token.NoPos
		if len(r.outs) == 0 {
			bad, worst = "no result", fn.Pos()
		}
		for _, o := range r.outs {
			if s := r.b58Encoded(o, n); s != "" && bad == "" {
				dumpFacts("base58-encode", o.st, nil)
				bad, worst = s, o.pos
			}
		}
		c.ob("base58-encode", fmt.Sprintf("%s (%d bytes)", fname(fn), k), worst, bad == "", bad)
	}
}

// b58Encoded: the result is the number the n bytes stand for, digit by digit.
func (r *Run) b58Encoded(o Out, n int64) string {
	e := r.e
	if o.panicked {
		return "the block makes the encoder panic"
	}
	seq, ok := e.byteSeq(o.st, stripConv(o.res[0]))
	m := b58Chars[n]
	if !ok || int64(len(seq)) != m {
		return fmt.Sprintf("the result does not have %d characters", m)
	}
	want := zeros(0)
	for i := n - 1; i >= 0; i-- {
		want = append(want, e.bits(o.st, e.in.Elem(r.pm.params["src"], e.in.Int(i), types.Typ[types.Uint8]))...)
	}
	want = fit(want, 64)
	for j, t := range seq {
		if t.op != OpElem || t.args[0].op != OpConst || t.args[0].val == nil || t.args[0].val.Kind() != constant.String || constant.StringVal(t.args[0].val) != b58Alphabet {
			return "a character is not taken from the alphabet"
		}
		x := stripConv(t.args[1])
		if d, ok := x.modConst(); !ok || d.Cmp(big.NewInt(58)) != 0 {
			return fmt.Sprintf("character %d is not a digit to base 58", j)
		}
		x = stripConv(x.args[0])
		div := big.NewInt(1)
		for x.op == OpBin && x.str == "/" {
			d, ok := x.args[1].intConst()
			if !ok {
				break
			}
			div.Mul(div, d)
			x = stripConv(x.args[0])
		}
		if div.Cmp(pow58(m-1-int64(j))) != 0 {
			return fmt.Sprintf("character %d is not the digit of its place", j)
		}
		if !eqBits(e.bits(o.st, x), want) {
			return "the number is not the big-endian value of the bytes: " + x.String()
		}
	}
	return ""
}

func (t *Term) modConst() (*big.Int, bool) {
	if t.op != OpBin || t.str != "%" || len(t.args) != 2 {
		return nil, false
	}
	return t.args[1].intConst()
}

// base58Whole: texts and byte strings are cut into full blocks and a rest, from the front.
func (c *Ctx) base58Whole() {
	cfg := b58Full
	cfg.Opaque = func(f *ssa.Function) bool { return f.Name() == "decodeBlock" || f.Name() == "encodeBlock" }
	for _, w := range []struct {
		fn, block string
		full, max int64
	}{{"Decode", "base58.decodeBlock", 11, 122}, {"Encode", "base58.encodeBlock", 8, 90}} {
		fn := c.fn("crypto/base58", "", w.fn)
		if fn == nil {
			continue
		}
		bad, worst := "", token.NoPos
		for n := int64(0); n <= w.max && bad == ""; n++ {
			r := c.run(fmt.Sprintf("length %d", n), fn, cfg, []string{"s"}, seedLength(0, n), func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
			if r == nil {
				return
			}
			good := 0
			for _, o := range r.outs {
				s := ""
				switch {
				case o.panicked:
					s = "panics"
				case len(o.res) == 1 || r.isSuccess(o):
					good++
					parts := r.e.joined(o.res[0])
					for i, p := range parts {
						lo := int64(i) * w.full
						hi := lo + w.full
						if hi > n {
							hi = n
						}
						if lo >= n || !r.blockOf(p, w.block, lo, hi, n, len(o.res) == 1) {
							s = fmt.Sprintf("part %d of the result is not the one of block %d", i, i)
							break
						}
					}
					if s == "" && int64(len(parts)) != (n+w.full-1)/w.full {
						s = "some block is left out"
					}
					if s == "" && len(o.res) == 2 {
						for i := int64(0); i*w.full < n; i++ {
							if !r.blockFailed(o.st, nil, w.block, i*w.full, min(n, (i+1)*w.full), n, false) {
								s = "the failure of a block is passed over"
							}
						}
					}
				default:
					if !r.blockFailed(o.st, o.res[1], w.block, -1, -1, n, true) {
						s = "refused although every block may be right"
					}
				}
				if s != "" && bad == "" {
					dumpFacts("base58-blocks", o.st, nil)
					bad, worst = fmt.Sprintf("%s (length %d)", s, n), o.pos
				}
			}
			if bad == "" && good == 0 {
				bad, worst = fmt.Sprintf("no result for length %d", n), fn.Pos()
			}
		}
		c.ob("base58-blocks", fname(fn), worst, bad == "", bad)
	}
}

// joined: the parts a text or byte string was put together from.
func (e *Eng) joined(t *Term) []*Term {
	t = stripConv(t)
	switch {
	case t.isNil() || t.isEmptyString():
		return nil
	case t.op == OpAppend || t.op == OpBin && t.str == "+":
		var r []*Term
		for _, a := range t.args {
			r = append(r, e.joined(a)...)
		}
		return r
	case t.op == OpCall && t.str == "byteseq" && len(t.args) == 0:
		return nil
	case t.op == OpMake:
		if n, ok := e.in.Len(t).intConst(); ok && n.Sign() == 0 {
			return nil
		}
	}
	return []*Term{t}
}

// blockOf: t is what the block function makes of s[lo:hi]; long: it may be given more than a full block.
func (r *Run) blockOf(t *Term, block string, lo, hi, n int64, long bool) bool {
	t = stripConv(t)
	if t.op == OpExtract && t.str == "0" {
		t = t.args[0]
	}
	if t.op != OpCall || t.str != block || len(t.args) != 1 {
		return false
	}
	return r.partOf(t.args[0], lo, hi, n, long)
}

func (r *Run) partOf(a *Term, lo, hi, n int64, long bool) bool {
	b, l, h := r.e.span(a)
	lc, ok1 := l.intConst()
	hc, ok2 := h.intConst()
	if b != r.pm.params["s"] || !ok1 || !ok2 {
		return false
	}
	if lo < 0 {
		// any block
		lo, hi = lc.Int64(), lc.Int64()+11
		if lo%11 != 0 {
			return false
		}
		if hi > n {
			hi = n
		}
	}
	return lc.Int64() == lo && (hc.Int64() == hi || long && hi-lo == 8 && hc.Int64() > hi && hc.Int64() <= n)
}

// blockFailed: the error of a block is (not) nil on the path.
func (r *Run) blockFailed(st *State, err *Term, block string, lo, hi, n int64, failed bool) bool {
	for _, f := range st.facts.list() {
		want := "EQ"
		if failed {
			want = "NE"
		}
		if f.kind != want || f.a == nil {
			continue
		}
		for _, p := range [][2]*Term{{f.a, f.b}, {f.b, f.a}} {
			if p[1] != nil && p[1].isNil() && p[0] != nil && p[0].op == OpExtract && p[0].str == "1" {
				t := p[0].args[0]
				if t.op == OpCall && t.str == block && r.partOf(t.args[0], lo, hi, n, false) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("A02", "base58 text", "", nil, func(c *Ctx) { c.base58Rules() })
}
