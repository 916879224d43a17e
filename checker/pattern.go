package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Patterns are Go expressions over names: parameters of the root function, field selectors
// (embedded structs may be skipped), calls by function or method name (receiver first), len, is, as,
// has, get, and the logical forms all(i, X, P), imp(G, P), ev("name", args...), P && Q, P || Q.
// They are matched against the abstract terms and facts, never against source text.

type Binds struct {
	m    map[string]*Term
	loop map[string]int
	prev *Binds
}

type PM struct {
	premise bool
	e       *Eng
	params  map[string]*Term
	cache   map[string]ast.Expr
	trail   []*Fact // facts used by the proof under construction
}

func (e *Eng) pm(params map[string]*Term) *PM {
	return &PM{e: e, params: params, cache: map[string]ast.Expr{}}
}

func (m *PM) parse(p string) ast.Expr {
	if x, ok := m.cache[p]; ok {
		return x
	}
	x, err := parser.ParseExpr(p)
	if err != nil {
		panic(fmt.Sprintf("pattern %q: %v", p, err))
	}
	m.cache[p] = x
	return x
}

type bmap map[string]*Term

func (b bmap) with(k string, t *Term) bmap {
	n := make(bmap, len(b)+1)
	for x, y := range b {
		n[x] = y
	}
	n[k] = t
	return n
}

type cont func(b bmap) bool

// peels: the term and its see-through variants.
func (m *PM) peels(t *Term) []*Term {
	r := []*Term{t}
	for {
		switch {
		case t.op == OpIface:
			t = t.args[0]
		case t.op == OpField && strings.HasPrefix(t.str, "~"):
			t = t.args[0]
		case t.op == OpUn && t.str == "*":
			t = t.args[0]
		case t.op == OpSlice && t.args[1].isNil() && t.args[2].isNil():
			t = t.args[0]
		case m.e.settled(t) != nil:
			t = m.e.settled(t)
		default:
			return r
		}
		r = append(r, t)
	}
}

// settled: a loop value that is the result of the same call, of the same things, before the loop and
// after every round stands for that call.
func (e *Eng) settled(t *Term) *Term {
	if t == nil || t.op != OpFresh || e.lvs[t] == nil {
		return nil
	}
	li := e.lvs[t]
	if li.init == nil || li.init.op != OpCall && li.init.op != OpExtract && li.init.op != OpField || len(li.steps) == 0 {
		return nil
	}
	for _, s := range li.steps {
		if !e.sameForm(li.init, s.val, 0) {
			return nil
		}
	}
	return li.init
}

func (e *Eng) sameForm(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d > 6 || a == nil || b == nil {
		return false
	}
	if li := e.lvs[b]; b.op == OpFresh && li != nil && (li.init == a || a.op == OpObj && li.key == fmt.Sprintf("cell:%d", a.id) || e.sameForm(a, li.init, d+1)) {
		return true
	}
	if a.op != b.op || a.str != b.str || len(a.args) != len(b.args) || a.op == OpFresh || a.op == OpParam || a.op == OpConst {
		return false
	}
	for i := range a.args {
		if !e.sameForm(a.args[i], b.args[i], d+1) {
			return false
		}
	}
	return true
}

func (m *PM) term(p ast.Expr, t *Term, b bmap, k cont) bool {
	for _, u := range m.peels(t) {
		if m.term1(p, u, b, k) {
			return true
		}
	}
	return false
}

func nameMatch(full, pat string) bool {
	return full == pat || strings.HasSuffix(full, "."+pat)
}

func exprName(x ast.Expr) string {
	switch y := x.(type) {
	case *ast.Ident:
		return y.Name
	case *ast.SelectorExpr:
		return exprName(y.X) + "." + y.Sel.Name
	case *ast.StarExpr:
		return "*" + exprName(y.X)
	case *ast.ArrayType:
		return "[]" + exprName(y.Elt)
	}
	return "?"
}

func typeMatch(t types.Type, pat string) bool {
	s := typeStr(t)
	return s == pat || nameMatch(s, pat) || strings.HasPrefix(pat, "*") && strings.HasPrefix(s, "*") && nameMatch(s[1:], pat[1:])
}

func (m *PM) term1(p ast.Expr, t *Term, b bmap, k cont) bool {
	e := m.e
	switch x := p.(type) {
	case *ast.ParenExpr:
		return m.term1(x.X, t, b, k)
	case *ast.Ident:
		switch x.Name {
		case "_":
			return k(b)
		case "nil":
			return t.isNil() && k(b)
		case "true", "false":
			v, ok := t.isBoolConst()
			return ok && v == (x.Name == "true") && k(b)
		}
		if v, ok := b[x.Name]; ok {
			return v == t && k(b)
		}
		if v, ok := m.params[x.Name]; ok {
			return (v == t) && k(b)
		}
		if strings.HasPrefix(x.Name, "v_") {
			return k(b.with(x.Name, t))
		}
		if t.op == OpGlobal || t.op == OpFunc {
			return nameMatch(t.str, x.Name) && k(b)
		}
		if t.op == OpParam {
			return t.str == x.Name && k(b)
		}
		return false
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			c, ok := t.intConst()
			if !ok {
				return false
			}
			w, _ := new(big.Int).SetString(x.Value, 0)
			return c.Cmp(w) == 0 && k(b)
		case token.STRING:
			if t.op != OpConst || t.val == nil || t.val.Kind() != constant.String {
				return false
			}
			s, _ := strconv.Unquote(x.Value)
			return constant.StringVal(t.val) == s && k(b)
		}
		return false
	case *ast.StarExpr:
		return m.term1(x.X, t, b, k)
	case *ast.SelectorExpr:
		if t.op == OpGlobal || t.op == OpFunc {
			return nameMatch(t.str, exprName(x)) && k(b)
		}
		if t.op == OpField && (t.str == x.Sel.Name || t.str == "~"+x.Sel.Name) {
			if m.term(x.X, t.args[0], b, k) {
				return true
			}
		}
		if t.op == OpComp || t.op == OpZero || t.op == OpJoin || t.op == OpLV {
			return false
		}
		return false
	case *ast.IndexExpr:
		if t.op == OpElem || t.op == OpGet {
			return m.term(x.X, t.args[0], b, func(b bmap) bool { return m.term(x.Index, t.args[1], b, k) })
		}
		return false
	case *ast.TypeAssertExpr:
		if t.op == OpAs && typeMatch(t.typ, exprName(x.Type)) {
			return m.term(x.X, t.args[0], b, k)
		}
		return false
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return m.term1(x.X, t, b, k)
		}
		if t.op == OpUn && t.str == x.Op.String() {
			return m.term(x.X, t.args[0], b, k)
		}
		return false
	case *ast.BinaryExpr:
		switch x.Op {
		case token.ADD, token.SUB:
			pa, pc, neg := m.patAddends(p)
			if len(neg) > 0 {
				// minuend - subtrahend, kept as an atom
				if t.op == OpBin && t.str == "-" && x.Op == token.SUB {
					return m.term(x.X, t.args[0], b, func(b bmap) bool { return m.term(x.Y, t.args[1], b, k) })
				}
				return false
			}
			ta, tc := e.in.split(t)
			if tc.Cmp(pc) != 0 {
				return false
			}
			return m.multiset(pa, ta, b, k)
		case token.MUL, token.AND, token.OR, token.XOR:
			if t.op == OpBin && t.str == x.Op.String() {
				return m.term(x.X, t.args[0], b, func(b bmap) bool { return m.term(x.Y, t.args[1], b, k) }) ||
					m.term(x.X, t.args[1], b, func(b bmap) bool { return m.term(x.Y, t.args[0], b, k) })
			}
			return false
		default:
			if t.op == OpBin && strings.TrimSuffix(t.str, "i") == x.Op.String() {
				return m.term(x.X, t.args[0], b, func(b bmap) bool { return m.term(x.Y, t.args[1], b, k) })
			}
			return false
		}
	case *ast.CompositeLit:
		if x.Type != nil {
			if t.op == OpComp && t.typ != nil && !typeMatch(t.typ, exprName(x.Type)) {
				return false
			}
		}
		if t.op != OpComp {
			return false
		}
		var rec func(i int, b bmap) bool
		rec = func(i int, b bmap) bool {
			if i == len(x.Elts) {
				return k(b)
			}
			kv := x.Elts[i].(*ast.KeyValueExpr)
			n := kv.Key.(*ast.Ident).Name
			f := e.in.Field(t, n, nil, 0)
			if f.op == OpField && f.args[0].op == OpZero {
				f = e.zeroField(f.args[0].typ, n)
			}
			return m.term(kv.Value, f, b, func(b bmap) bool { return rec(i+1, b) })
		}
		return rec(0, b)
	case *ast.CallExpr:
		fn := exprName(x.Fun)
		a := x.Args
		switch fn {
		case "either":
			for _, y := range a {
				if m.term(y, t, b, k) {
					return true
				}
			}
			return false
		case "joinof":
			// the value, or every alternative of a merged value, matches one of the patterns
			var alts []*Term
			seen := map[*Term]bool{}
			var flat func(x *Term)
			flat = func(x *Term) {
				if seen[x] {
					return
				}
				seen[x] = true
				if x.op == OpJoin && len(m.e.joins[x]) > 0 {
					for y := range m.e.joins[x] {
						flat(y)
					}
					return
				}
				alts = append(alts, x)
			}
			flat(t)
			for i := range alts {
				for j := i + 1; j < len(alts); j++ {
					if alts[j].id < alts[i].id {
						alts[i], alts[j] = alts[j], alts[i]
					}
				}
			}
			var rec func(i int, b bmap) bool
			rec = func(i int, b bmap) bool {
				if i == len(alts) {
					return k(b)
				}
				for _, y := range a {
					if m.term(y, alts[i], b, func(b bmap) bool { return rec(i+1, b) }) {
						return true
					}
				}
				return false
			}
			return rec(0, b)
		case "len":
			return t.op == OpLen && m.term(a[0], t.args[0], b, k)
		case "is":
			return t.op == OpIs && typeMatch(t.typ, exprName(a[1])) && m.term(a[0], t.args[0], b, k)
		case "as":
			return t.op == OpAs && typeMatch(t.typ, exprName(a[1])) && m.term(a[0], t.args[0], b, k)
		case "conv":
			return t.op == OpConv && m.term(a[0], t.args[0], b, k)
		case "anyconv":
			if t.op == OpConv && keepsValue(t) && m.term(a[0], t.args[0], b, k) {
				return true
			}
			return m.term(a[0], t, b, k)
		case "has":
			return t.op == OpHas && m.term(a[0], t.args[0], b, func(b bmap) bool { return m.term(a[1], t.args[1], b, k) })
		case "get":
			return t.op == OpGet && m.term(a[0], t.args[0], b, func(b bmap) bool { return m.term(a[1], t.args[1], b, k) })
		case "max", "min":
			if t.op == OpCall && t.str == fn {
				return m.list(a, t.args, b, k) || m.list([]ast.Expr{a[1], a[0]}, t.args, b, k)
			}
			return false
		case "minus":
			return t.op == OpBin && t.str == "-" && m.term(a[0], t.args[0], b, func(b bmap) bool { return m.term(a[1], t.args[1], b, k) })
		case "concat":
			// append(x, y...), in either order
			if t.op != OpAppend || len(t.args) != 2 {
				return false
			}
			return m.list(a, t.args, b, k) || m.list([]ast.Expr{a[1], a[0]}, t.args, b, k)
		case "append":
			// append(x, e...) with the appended elements one by one
			if t.op != OpAppend || len(t.args) != 2 || t.args[1].op != OpComp && t.args[1].op != OpArr {
				return false
			}
			var els []*Term
			for i := 0; i+1 < len(a); i++ {
				els = append(els, m.e.in.Elem(t.args[1], m.e.in.Int(int64(i)), nil))
			}
			return m.term(a[0], t.args[0], b, func(b bmap) bool { return m.list(a[1:], els, b, k) })
		case "make":
			return t.op == OpMake && k(b)
		case "loopvar":
			return t.op == OpLV && k(b)
		case "key":
			return t.op == OpKey && m.term(a[0], t.args[0], b, k)
		case "slice":
			if t.op != OpSlice {
				return false
			}
			return m.list(a, t.args, b, k)
		case "r0", "r1", "r2":
			return t.op == OpExtract && t.str == fn[1:] && m.term(a[0], t.args[0], b, k)
		case "cat":
			// the bytes of the given values, one after the other
			if t.op == OpCall && t.str == "bytesof" {
				ops, ok := m.e.wops(t.args[0], nil, 0)
				if !ok {
					return false
				}
				var vs []*Term
				for _, o := range ops {
					if o.kind != "bytes" && o.kind != "uv" && !strings.HasPrefix(o.kind, "raw") {
						return false
					}
					v := o.val
					if o.kind == "uv" || o.kind != "bytes" && v.typ != nil && isInteger(v.typ) {
						v = m.e.in.mk(Term{op: OpCall, str: o.kind, args: []*Term{v}, typ: v.typ})
					}
					vs = append(vs, v)
				}
				return m.list(a, vs, b, k)
			}
			return len(a) == 1 && m.term(a[0], t, b, k)
		case "random":
			return m.e.isRandomScalar(t) && k(b)
		case "infinity":
			return m.e.isInfinity(t) && k(b)
		}
		if t.op == OpCall && nameMatch(t.str, fn) {
			return m.list(a, t.args, b, k)
		}
		return false
	}
	return false
}

func (e *Eng) zeroField(t types.Type, n string) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return e.in.Zero(s.Field(i).Type())
			}
		}
	}
	return e.in.Nil()
}

func (m *PM) list(ps []ast.Expr, ts []*Term, b bmap, k cont) bool {
	if len(ps) > 0 {
		if id, ok := ps[len(ps)-1].(*ast.Ident); ok && id.Name == "etc" {
			ps = ps[:len(ps)-1]
			if len(ts) < len(ps) {
				return false
			}
			ts = ts[:len(ps)]
		}
	}
	if len(ps) != len(ts) {
		return false
	}
	var rec func(i int, b bmap) bool
	rec = func(i int, b bmap) bool {
		if i == len(ps) {
			return k(b)
		}
		return m.term(ps[i], ts[i], b, func(b bmap) bool { return rec(i+1, b) })
	}
	return rec(0, b)
}

// patAddends splits a pattern into positive addends, constant, negative addends.
func (m *PM) patAddends(p ast.Expr) (pos []ast.Expr, c *big.Int, neg []ast.Expr) {
	c = new(big.Int)
	var walk func(p ast.Expr, sign int)
	walk = func(p ast.Expr, sign int) {
		switch x := p.(type) {
		case *ast.ParenExpr:
			walk(x.X, sign)
			return
		case *ast.BasicLit:
			if x.Kind == token.INT {
				w, _ := new(big.Int).SetString(x.Value, 0)
				if sign < 0 {
					w.Neg(w)
				}
				c.Add(c, w)
				return
			}
		case *ast.BinaryExpr:
			if x.Op == token.ADD {
				walk(x.X, sign)
				walk(x.Y, sign)
				return
			}
			if x.Op == token.SUB {
				walk(x.X, sign)
				walk(x.Y, -sign)
				return
			}
		}
		if sign > 0 {
			pos = append(pos, p)
		} else {
			neg = append(neg, p)
		}
	}
	walk(p, 1)
	return
}

func (m *PM) multiset(ps []ast.Expr, ts []*Term, b bmap, k cont) bool {
	if len(ps) != len(ts) {
		return false
	}
	used := make([]bool, len(ts))
	var rec func(i int, b bmap) bool
	rec = func(i int, b bmap) bool {
		if i == len(ps) {
			return k(b)
		}
		for j := range ts {
			if used[j] {
				continue
			}
			used[j] = true
			if m.term(ps[i], ts[j], b, func(b bmap) bool { return rec(i+1, b) }) {
				used[j] = false
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0, b)
}

// ---- facts -----------------------------------------------------------------------------------

type factCtx struct {
	st     *State
	prefix []int // quantifiers already opened
	guard  *Fact // implication premise already opened
}

// Holds decides whether the state proves the pattern.
func (m *PM) Holds(st *State, pat string, b bmap) bool {
	if b == nil {
		b = bmap{}
	}
	return m.prove(m.parse(pat), &factCtx{st: st}, b, func(bmap) bool { return true })
}

// HoldsB also returns the bindings of the first proof.
func (m *PM) HoldsB(st *State, pat string, b bmap) (bmap, bool) {
	if b == nil {
		b = bmap{}
	}
	var r bmap
	ok := m.prove(m.parse(pat), &factCtx{st: st}, b, func(x bmap) bool { r = x; return true })
	return r, ok
}

func (m *PM) prove(p ast.Expr, c *factCtx, b bmap, k cont) bool {
	switch x := p.(type) {
	case *ast.ParenExpr:
		return m.prove(x.X, c, b, k)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return m.prove(x.X, c, b, func(b bmap) bool { return m.prove(x.Y, c, b, k) })
		case token.LOR:
			return m.prove(x.X, c, b, k) || m.prove(x.Y, c, b, k)
		}
	case *ast.Ident:
		if x.Name == "true" {
			return k(b)
		}
	case *ast.CallExpr:
		fn := exprName(x.Fun)
		switch fn {
		case "all":
			// open a quantifier: try every loop
			iv := x.Args[0].(*ast.Ident).Name
			var loops []int
			seen := map[int]bool{}
			for f := range c.st.facts.m {
				q := m.quantUnder(f, c)
				for _, id := range q {
					if !seen[id] {
						seen[id] = true
						loops = append(loops, id)
					}
				}
			}
			sortInts(loops)
			for _, id := range loops {
				l := m.e.loops[id]
				if l == nil {
					continue
				}
				n := &factCtx{st: c.st, prefix: append(append([]int{}, c.prefix...), id), guard: c.guard}
				// index loops bind i to the iteration counter; map loops to the key
				for _, it := range m.indexTerms(l, n) {
					nb := b.with(iv, it)
					if m.prove(x.Args[2], n, nb, func(b2 bmap) bool {
						return m.covers(x.Args[1], l, it, n, b2, k)
					}) {
						return true
					}
				}
			}
			return false
		case "outside":
			// the value is one and the same for every iteration of the loop of index i
			v, ok1 := x.Args[0].(*ast.Ident)
			id, ok2 := x.Args[1].(*ast.Ident)
			if !ok1 || !ok2 || b[v.Name] == nil || b[id.Name] == nil {
				return false
			}
			for _, l := range b[id.Name].loops {
				if m.e.loops[l] != nil && m.e.loops[l].iter == b[id.Name] && hasInt(b[v.Name].loops, l) {
					return false
				}
			}
			for f := range c.st.may.m {
				if (f.name == "delete" || f.name == "clear") && f.args[0] == b[v.Name] {
					return false // entries may be taken out again
				}
			}
			return k(b)
		case "within", "done":
			// the loop of index i runs at most N times / was left because it ran N times
			id, ok := x.Args[0].(*ast.Ident)
			if !ok || b[id.Name] == nil || b[id.Name].op != OpIter {
				return false
			}
			return m.bound(fn == "done", x.Args[1], b[id.Name], c, b, k)
		case "now":
			// the field of the parameter holds this value here
			sel, ok := x.Args[0].(*ast.SelectorExpr)
			if !ok {
				return false
			}
			base, ok := m.params[exprName(sel.X)]
			if !ok || base.typ == nil {
				return false
			}
			at := m.e.fieldAddr(base, base.typ, sel.Sel.Name)
			return at != nil && m.term(x.Args[1], m.e.load(c.st, at), b, k)
		case "val":
			// the value bound to the name has this form
			id, ok := x.Args[0].(*ast.Ident)
			return ok && b[id.Name] != nil && m.term(x.Args[1], b[id.Name], b, k)
		case "result":
			// the result with this number is the given value
			t := b["res"+x.Args[0].(*ast.BasicLit).Value]
			return t != nil && m.term(x.Args[1], t, b, k)
		case "imp":
			// unconditional proof, or an implication whose premise matches
			if m.prove(x.Args[1], c, b, k) {
				return true
			}
			for _, f := range c.st.facts.list() {
				if f.kind != "IMP" || !eqInts(f.quant, c.prefix) {
					continue
				}
				old := m.premise
				m.premise = true // the pattern has to imply the premise of the fact
				ok := m.single(x.Args[0], f.g, b, func(b bmap) bool {
					m.premise = false
					defer func() { m.premise = true }()
					n := &factCtx{st: c.st, prefix: c.prefix, guard: f.g}
					return m.prove(x.Args[1], n, b, k)
				})
				m.premise = old
				if ok {
					return true
				}
			}
			return false
		}
	}
	for _, f := range c.st.facts.list() {
		g := m.inContext(f, c)
		if g == nil {
			continue
		}
		n := len(m.trail)
		m.trail = append(m.trail, f)
		for _, v := range m.variants(g, c) {
			if m.single(p, v, b, k) {
				return true
			}
		}
		m.trail = m.trail[:n]
	}
	// an implication whose conclusion also follows from the opposite of its premise
	if c.guard == nil {
		for _, f := range c.st.facts.list() {
			if f.kind != "IMP" || !eqInts(f.quant, c.prefix) || len(f.f.quant) > 0 || f.f.kind == "EV" {
				continue
			}
			s := &State{facts: newFactSet()}
			s.facts.m[m.e.negate(f.g)] = struct{}{}
			if m.e.decide(s, f.f) != yes {
				continue
			}
			n := len(m.trail)
			m.trail = append(m.trail, f)
			if m.single(p, f.f, b, k) {
				return true
			}
			m.trail = m.trail[:n]
		}
	}
	return false
}

// variants: a step over a merged value, also with the merged value replaced by what it equals here.
func (m *PM) variants(g *Fact, c *factCtx) []*Fact {
	r := []*Fact{g}
	if g.kind != "STEP" {
		return r
	}
	ts, cc := m.e.in.split(g.b)
	for i, t := range ts {
		if t.op != OpJoin {
			continue
		}
		for _, f := range c.st.facts.list() {
			h := m.inContext(f, c)
			if h == nil || h.kind != "EQ" || h.c.Sign() != 0 || h.a != t && h.b != t || h.a == nil {
				continue
			}
			o := h.a
			if o == t {
				o = h.b
			}
			if o == nil {
				o = m.e.in.Int(0)
			}
			n := append([]*Term{}, ts[:i]...)
			n = append(n, ts[i+1:]...)
			r = append(r, m.e.in.fact(Fact{kind: "STEP", a: g.a, b: m.e.in.Add(m.e.in.mkSum(n, cc), o)}))
		}
	}
	return r
}

func (m *PM) bound(done bool, np ast.Expr, it *Term, c *factCtx, b bmap, k cont) bool {
	l := m.e.loops[it.loops[len(it.loops)-1]]
	for _, x := range m.e.loops {
		if x.iter == it {
			l = x
		}
	}
	if l == nil {
		return false
	}
	for _, f := range c.st.facts.list() {
		g := m.inContext(f, c)
		if g == nil || g.kind != "LE" && g.kind != "EQ" {
			continue
		}
		var n *Term
		// counted down: N - i
		down := func(t *Term) *Term {
			if t != nil && t.op == OpBin && t.str == "-" && len(t.args) == 2 && t.args[1] == it {
				return t.args[0]
			}
			return nil
		}
		if done {
			switch {
			case down(g.a) != nil && g.b == nil && g.c.Sign() == 0:
				n = down(g.a)
			case !l.rev && g.kind == "LE" && g.b == it && g.a != nil && g.c.Sign() <= 0:
				n = g.a
			case !l.rev && g.kind == "EQ" && (g.a == it || g.b == it) && g.c.Sign() == 0:
				n = g.a
				if n == it {
					n = g.b
				}
			case l.rev && l.revInit != nil && g.a == it && g.b == nil:
				ts, cc := m.e.in.split(l.revInit)
				if len(ts) == 1 && new(big.Int).Add(cc, new(big.Int).Neg(g.c)).Sign() >= 0 {
					// init = N + cc; left when i <= c: N + cc - c iterations
					if new(big.Int).Sub(cc, g.c).Sign() == 0 {
						n = ts[0]
					}
				}
			}
		} else {
			switch {
			case down(g.b) != nil && g.kind == "LE" && g.a == nil && g.c.Cmp(big.NewInt(-1)) <= 0:
				n = down(g.b)
			case !l.rev && g.kind == "LE" && g.a == it && g.b != nil && g.c.Cmp(big.NewInt(-1)) <= 0:
				n = g.b
			case l.rev && l.revInit != nil && g.kind == "LE" && g.b == it && g.a == nil:
				ts, cc := m.e.in.split(l.revInit)
				// 0 <= i + c  <=>  i >= -c : iterations i = init .. -c, that is N + cc + c + 1
				if len(ts) == 1 && new(big.Int).Add(new(big.Int).Add(cc, g.c), bigOne).Sign() <= 0 {
					n = ts[0]
				}
			}
		}
		if n != nil && n.op == OpConv {
			w := stripWide(n)
			if w == n && m.e.within(c.st, n.args[0], n.typ) {
				w = n.args[0]
			}
			if w != n && m.term(np, w, b, k) {
				return true
			}
		}
		if n != nil && m.term(np, n, b, k) {
			return true
		}
	}
	return false
}

// within: the value lies in the range of the type.
func (e *Eng) within(st *State, x *Term, t types.Type) bool {
	lo, hi := e.bounds(st, x, 0)
	return lo != nil && hi != nil && isInteger(t) && fits(lo, t) && fits(hi, t)
}

func sortInts(a []int) {
	for i := range a {
		for j := i + 1; j < len(a); j++ {
			if a[j] < a[i] {
				a[i], a[j] = a[j], a[i]
			}
		}
	}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// inContext: the fact speaks at exactly the opened quantifiers (and, when a premise is open, either
// unconditionally or under that premise).
func (m *PM) inContext(f *Fact, c *factCtx) *Fact {
	if eqInts(f.quant, c.prefix) {
		if f.kind == "IMP" {
			if c.guard != nil && f.g == c.guard && len(f.f.quant) == 0 {
				return f.f
			}
			return nil
		}
		return f
	}
	if c.guard != nil && f.kind == "IMP" && f.g == c.guard && eqInts(append(append([]int{}, f.quant...), f.f.quant...), c.prefix) {
		return f.f
	}
	return nil
}

// quantUnder lists the loops that f quantifies over next, under the opened context.
func (m *PM) quantUnder(f *Fact, c *factCtx) []int {
	all := f.quant
	if f.kind == "IMP" {
		all = append(append([]int{}, f.quant...), f.f.quant...)
	}
	if len(all) > len(c.prefix) && eqInts(all[:len(c.prefix)], c.prefix) {
		return []int{all[len(c.prefix)]}
	}
	return nil
}

func (m *PM) indexTerms(l *Loop, c *factCtx) []*Term {
	r := []*Term{l.iter}
	seen := map[*Term]bool{}
	for f := range c.st.facts.m {
		if f.a != nil && f.a.op == OpIterOk && f.a.uid == fmt.Sprint(l.id) {
			mp := f.a.args[0]
			if !seen[mp] {
				seen[mp] = true
				var kt types.Type = types.Typ[types.Int]
				if mt, ok := mp.typ.Underlying().(*types.Map); ok {
					kt = mt.Key()
				}
				r = append(r, m.e.in.mk(Term{op: OpKey, uid: f.a.uid, args: []*Term{mp}, loops: f.a.loops, typ: kt}))
			}
		}
	}
	return r
}

// covers: the loop ran over every element of X before this point.
func (m *PM) covers(xp ast.Expr, l *Loop, it *Term, c *factCtx, b bmap, k cont) bool {
	if id, ok := xp.(*ast.Ident); ok && id.Name == "_" {
		return k(b)
	}
	outer := c.prefix[:len(c.prefix)-1]
	for _, f := range c.st.facts.list() {
		g := f
		if f.kind == "IMP" {
			if c.guard == nil || f.g != c.guard || len(f.f.quant) != 0 {
				continue
			}
			g = f.f
		}
		if !eqInts(f.quant, outer) {
			continue
		}
		switch {
		case it.op == OpKey && g.kind == "F" && g.a.op == OpIterOk && g.a.uid == it.uid:
			if m.term(xp, g.a.args[0], b, k) {
				return true
			}
		case it.op == OpIter && !l.rev && g.kind == "LE" && g.b == it && g.c.Sign() <= 0 && g.a != nil && g.a.op == OpLen:
			if m.term(xp, g.a.args[0], b, k) {
				return true
			}
		case it.op == OpIter && !l.rev && g.kind == "EQ" && (g.b == it || g.a == it) && g.c.Sign() == 0:
			o := g.a
			if o == it {
				o = g.b
			}
			if o != nil && o.op == OpLen && m.term(xp, o.args[0], b, k) {
				return true
			}
		case it.op == OpIter && l.rev && g.kind == "LE" && g.a == it && g.b == nil && g.c.Cmp(big.NewInt(-1)) <= 0 && l.revInit != nil:
			ts, cc := m.e.in.split(l.revInit)
			if len(ts) == 1 && ts[0].op == OpLen && cc.Cmp(big.NewInt(-1)) == 0 && m.term(xp, ts[0].args[0], b, k) {
				return true
			}
		}
	}
	return false
}

// single matches a pattern against one (dequantified) fact.
func (m *PM) single(p ast.Expr, f *Fact, b bmap, k cont) bool {
	switch x := p.(type) {
	case *ast.ParenExpr:
		return m.single(x.X, f, b, k)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return f.kind == "F" && m.term(x.X, f.a, b, k)
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LOR:
			return m.single(x.X, f, b, k) || m.single(x.Y, f, b, k)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.cmp(x, f, b, k)
		}
	case *ast.CallExpr:
		fn := exprName(x.Fun)
		switch fn {
		case "ev":
			n, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
			return f.kind == "EV" && nameMatch(f.name, n) && m.list(x.Args[1:], f.args, b, k)
		case "init":
			return f.kind == "INIT" && m.term(x.Args[0], f.a, b, func(b bmap) bool { return m.term(x.Args[1], f.b, b, k) })
		case "step":
			return f.kind == "STEP" && m.term(x.Args[0], f.a, b, func(b bmap) bool { return m.term(x.Args[1], f.b, b, k) })
		case "noovf":
			// a + b <= MaxUint64
			if f.kind == "LE" && f.b == nil && f.c.Cmp(maxU64) <= 0 && f.a != nil {
				ta, tc := m.e.in.split(f.a)
				return tc.Sign() == 0 && m.multiset(x.Args, ta, b, k)
			}
			return false
		}
	}
	return f.kind == "T" && m.term(p, f.a, b, k)
}

// cmp: does the fact imply  L op R ?
func (m *PM) cmp(x *ast.BinaryExpr, f *Fact, b bmap, k cont) bool {
	if f.kind != "EQ" && f.kind != "NE" && f.kind != "LE" {
		return false
	}
	lp, lc, ln := m.patAddends(x.X)
	rp, rc, rn := m.patAddends(x.Y)
	// move negatives across
	lp = append(append([]ast.Expr{}, lp...), rn...)
	rp = append(append([]ast.Expr{}, rp...), ln...)
	want := new(big.Int).Sub(rc, lc) // lp - rp op want
	var fa, fb []*Term
	if f.a != nil {
		fa, _ = m.e.in.split(f.a)
	}
	if f.b != nil {
		fb, _ = m.e.in.split(f.b)
	}
	try := func(pa, pb []ast.Expr, swapped bool) bool {
		if len(pa) != len(fa) || len(pb) != len(fb) {
			return false
		}
		if m.premise {
			if !impliedBy(f.kind, f.c, swapped, x.Op, want) {
				return false
			}
		} else if !implies(f.kind, f.c, swapped, x.Op, want) {
			return false
		}
		return m.multiset(pa, fa, b, func(b bmap) bool { return m.multiset(pb, fb, b, k) })
	}
	return try(lp, rp, false) || try(rp, lp, true)
}

// impliedBy: D = A - B (or B - A) with  D op want ; does the fact  A - B kind c  follow?
func impliedBy(kind string, c *big.Int, swapped bool, op token.Token, want *big.Int) bool {
	w := new(big.Int).Set(want)
	k, d := "", w
	sw := swapped
	switch op {
	case token.EQL:
		k = "EQ"
	case token.NEQ:
		k = "NE"
	case token.LEQ:
		k = "LE"
	case token.LSS:
		k, d = "LE", new(big.Int).Sub(w, bigOne)
	case token.GEQ: // D >= w  <=>  -D <= -w
		k, d, sw = "LE", new(big.Int).Neg(w), !swapped
	case token.GTR:
		k, d, sw = "LE", new(big.Int).Sub(new(big.Int).Neg(w), bigOne), !swapped
	}
	op2 := map[string]token.Token{"EQ": token.EQL, "NE": token.NEQ, "LE": token.LEQ}[kind]
	return implies(k, d, sw, op2, c)
}

// implies: fact  A - B kind c ; with D = A - B (or D = B - A when swapped) does D op want follow?
func implies(kind string, c *big.Int, swapped bool, op token.Token, want *big.Int) bool {
	inf := true
	var lo, hi *big.Int // nil = unbounded
	neq := (*big.Int)(nil)
	cc := new(big.Int).Set(c)
	switch kind {
	case "EQ":
		if swapped {
			cc.Neg(cc)
		}
		lo, hi = cc, cc
	case "NE":
		if swapped {
			cc.Neg(cc)
		}
		neq = cc
	case "LE":
		if swapped {
			lo = cc.Neg(cc)
		} else {
			hi = cc
		}
	}
	_ = inf
	switch op {
	case token.EQL:
		return lo != nil && hi != nil && lo.Cmp(want) == 0 && hi.Cmp(want) == 0
	case token.NEQ:
		return neq != nil && neq.Cmp(want) == 0 || lo != nil && lo.Cmp(want) > 0 || hi != nil && hi.Cmp(want) < 0
	case token.LSS:
		return hi != nil && hi.Cmp(want) < 0
	case token.LEQ:
		return hi != nil && hi.Cmp(want) <= 0
	case token.GTR:
		return lo != nil && lo.Cmp(want) > 0
	case token.GEQ:
		return lo != nil && lo.Cmp(want) >= 0
	}
	return false
}

// keepsValue reports whether a conversion loses no more than a sign or the upper half of a length.
func keepsValue(t *Term) bool {
	width := func(t types.Type) int64 {
		if n := scalarWidth(t); n > 0 {
			return n
		}
		return 8 // an int, or nothing an integer conversion could cut
	}
	if t.args[0].op == OpLen && t.typ != nil {
		return width(t.typ) >= 4
	}
	if t.typ == nil || t.args[0].typ == nil || !isInteger(t.typ) || !isInteger(t.args[0].typ) {
		return true
	}
	to, from := width(t.typ), width(t.args[0].typ)
	lengths := false
	walkTerm(t.args[0], func(x *Term) { lengths = lengths || x.op == OpLen })
	return to >= from || to >= 4 && lengths
}
