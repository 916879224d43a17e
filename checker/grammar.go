package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// A grammar describes a wire format: what is written in which order and which field carries it. The
// same grammar is compared with what a function writes and with what a function reads.
type gItem struct {
	kind  string // uv rawN bytes list switch rep
	sink  string // field path relative to the value the grammar describes ("" = the value itself)
	bits  int    // significant bits of the field (uv)
	sub   []gItem
	alts  []gAlt
	count func(m *gm, st *State, base gval) *Term // rep: number of repetitions when reading
	check func(m *gm, base gval, ops []wop, i int, st *State, where string) (int, error)
	cnst  *int64 // a constant written instead of a field
}

type gAlt struct {
	tag int64
	typ string
	sub []gItem
}

func uv(sink string, bits int) gItem               { return gItem{kind: "uv", sink: sink, bits: bits} }
func raw(kind, sink string) gItem                  { return gItem{kind: kind, sink: sink} }
func bts(sink string) gItem                        { return gItem{kind: "bytes", sink: sink} }
func list(sink string, sub ...gItem) gItem         { return gItem{kind: "list", sink: sink, sub: sub} }
func rep(sink string, sub ...gItem) gItem          { return gItem{kind: "rep", sink: sink, sub: sub} }
func group(sink string, sub ...gItem) gItem        { return gItem{kind: "group", sink: sink, sub: sub} }
func tagged(sink string, alts ...gAlt) gItem       { return gItem{kind: "switch", sink: sink, alts: alts} }
func alt(tag int64, typ string, sub ...gItem) gAlt { return gAlt{tag, typ, sub} }

type gm struct {
	e    *Eng
	read bool
	fin  *State
	tags map[string]bool
	n    int // matched items
}

type gval struct {
	t   *Term // value or place
	typ types.Type
}

func (m *gm) field(st *State, v gval, path string) (gval, error) {
	if path == "" {
		return v, nil
	}
	obj, idx, _ := types.LookupFieldOrMethod(v.typ, true, nil, path)
	if obj == nil {
		if n, ok := derefType(v.typ).(*types.Named); ok {
			obj, idx, _ = types.LookupFieldOrMethod(v.typ, true, n.Obj().Pkg(), path)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		return gval{}, fmt.Errorf("%s has no field %s", typeStr(v.typ), path)
	}
	t, ty := v.t, v.typ
	for _, i := range idx {
		_, isPtr := ty.Underlying().(*types.Pointer)
		s := derefType(ty).Underlying().(*types.Struct)
		f := s.Field(i)
		if isPlace(t) || isPtr {
			if isPtr && isPlace(t) && t.op != OpObj {
				t = m.e.load(st, t) // the pointer stored there
			}
			t = m.e.in.mk(Term{op: OpFAddr, str: fieldName(s, i), uid: structName(ty), args: []*Term{t}, typ: f.Type()})
		} else {
			t = m.e.in.Field(t, fieldName(s, i), f.Type(), 0)
		}
		ty = f.Type()
	}
	return gval{t, ty}, nil
}

func (m *gm) load(st *State, v gval) *Term {
	if isPlace(v.t) {
		return m.e.load(st, v.t)
	}
	return v.t
}

func stripConv(t *Term) *Term {
	for t.op == OpConv {
		t = t.args[0]
	}
	return t
}

// stripWide removes the conversions that keep the value.
func stripWide(t *Term) *Term {
	for t.op == OpConv && len(t.args) == 1 {
		if to, _ := intBits(t.typ); to > 0 {
			from, _ := intBits(t.args[0].typ)
			if t.args[0].op == OpLen {
				from = 63
			}
			if from == 0 || to < from {
				break
			}
		}
		t = t.args[0]
	}
	return t
}

// stripAbove removes the conversions to types of at least the given number of bits.
func stripAbove(t *Term, bits int) *Term {
	for t.op == OpConv && len(t.args) == 1 {
		if to, _ := intBits(t.typ); to > 0 && to < bits {
			break
		}
		t = t.args[0]
	}
	return t
}

func (m *gm) same(a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = stripWide(unIface(a)), stripWide(unIface(b))
	if a == b {
		return true
	}
	return m.e.canon(a) == m.e.canon(b) && a.op != OpFresh
}

// isRead: term t is the value delivered by the read operation o.
func isRead(t *Term, o wop) bool {
	t = stripConv(unIface(t))
	return t.op == OpCall && t.str == "rd" && t.args[0] == o.val
}

// holds: t is the value read, or both are known to be the same constant.
func (m *gm) holds(st *State, t *Term, o wop) bool {
	if isRead(t, o) {
		return true
	}
	rd := m.e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{o.val}, typ: types.Typ[types.Uint64]})
	a, b := m.e.constOf(st, rd), m.e.constOf(st, stripConv(t))
	if c, ok := stripConv(t).intConst(); ok {
		b = c
	} else if isZeroInt(stripConv(t)) {
		b = new(big.Int)
	}
	return a != nil && b != nil && a.Cmp(b) == 0
}

func (m *gm) fits(st *State, o wop, t *Term, bits int) bool {
	v := unIface(t)
	for v.op == OpConv {
		if b, _ := intBits(v.typ); b > 0 && b < bits {
			bits = b
		}
		v = v.args[0]
	}
	if bits >= 64 {
		return true
	}
	max := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
	return m.e.decide(st, m.e.in.cmpFact(token.LEQ, v, m.e.in.BigInt(max), true, true)) == yes
}

// seq matches items against ops from position i; it returns the position after them.
func (m *gm) seq(items []gItem, base gval, ops []wop, i int, st *State, where string) (int, error) {
	for _, it := range items {
		var err error
		i, err = m.item(it, base, ops, i, st, where)
		if err != nil {
			return i, err
		}
		m.n++
	}
	return i, nil
}

func (m *gm) at(ops []wop, i int) string {
	if i < len(ops) {
		return opsString(ops[i : i+1])
	}
	return "nothing"
}

func (m *gm) item(it gItem, base gval, ops []wop, i int, st *State, where string) (int, error) {
	w := where + "." + it.sink
	need := func(kind string) error {
		if i >= len(ops) || ops[i].kind != kind {
			return fmt.Errorf("%s: %s expected, found %s", w, kind, m.at(ops, i))
		}
		return nil
	}
	var f gval
	var err error
	if it.cnst == nil {
		f, err = m.field(st, base, it.sink)
		if err != nil {
			return i, err
		}
	}
	switch {
	case it.kind == "uv" || strings.HasPrefix(it.kind, "raw"):
		if err := need(it.kind); err != nil {
			return i, err
		}
		v := m.load(st, f)
		if _, ok := f.typ.Underlying().(*types.Pointer); ok && isPlace(v) {
			v = m.e.load(st, v)
		}
		if m.read {
			if !m.holds(st, v, ops[i]) {
				return i, fmt.Errorf("%s: the field holds %s, not the value read at this position", w, v)
			}
			if it.kind == "uv" && !m.fits(st, ops[i], v, it.bits) {
				return i, fmt.Errorf("%s: the value read may exceed the %d bits of the field", w, it.bits)
			}
		} else if !m.same(ops[i].val, v) {
			return i, fmt.Errorf("%s: %s is written", w, ops[i].val)
		}
		return i + 1, nil
	case it.kind == "bytes":
		if err := need("uv"); err != nil {
			return i, err
		}
		v := m.load(st, f)
		if m.read {
			n := ops[i]
			i++
			if i >= len(ops) || ops[i].kind != "var" {
				return i, fmt.Errorf("%s: bytes of the announced length expected, found %s", w, m.at(ops, i))
			}
			if !isRead(ops[i].val.args[1], n) {
				return i, fmt.Errorf("%s: %s bytes are read", w, ops[i].val.args[1])
			}
			c := m.e.bytesOf(st, v)
			o2, ok := m.e.wops(c, nil, 0)
			if !ok || len(o2) != 1 || o2[0].kind != "bytes" || !isRead(o2[0].val, ops[i]) {
				return i, fmt.Errorf("%s: the field holds %s, not the bytes read", w, v)
			}
			return i + 1, nil
		}
		if !m.same(ops[i].val, m.e.in.Len(v)) {
			return i, fmt.Errorf("%s: %s is written as its length", w, ops[i].val)
		}
		i++
		if err := need("bytes"); err != nil {
			return i, err
		}
		if !m.same(ops[i].val, v) {
			return i, fmt.Errorf("%s: %s is written", w, ops[i].val)
		}
		return i + 1, nil
	case it.kind == "switch":
		return m.choice(it, f, ops, i, st, w)
	case it.kind == "list":
		if err := need("uv"); err != nil {
			return i, err
		}
		l := m.load(st, f)
		var n *Term
		if m.read {
			n = m.e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{ops[i].val}, typ: types.Typ[types.Uint64]})
		} else {
			n = m.e.in.Len(l)
			if !m.same(ops[i].val, n) {
				return i, fmt.Errorf("%s: %s is written as the number of elements", w, ops[i].val)
			}
		}
		i++
		return m.loop(it, f, l, n, ops, i, st, w)
	case it.kind == "rep":
		l := m.load(st, f)
		n := m.e.in.Len(l)
		if m.read && it.count != nil {
			if n = it.count(m, st, base); n == nil {
				return i, fmt.Errorf("%s: the number of elements cannot be determined", w)
			}
		}
		return m.loop(it, f, l, n, ops, i, st, w)
	case it.kind == "group":
		return m.seq(it.sub, f, ops, i, st, w)
	case it.kind == "custom":
		return it.check(m, f, ops, i, st, w)
	}
	return i, fmt.Errorf("unknown grammar item %s", it.kind)
}

// loop: one round of the repetition at ops[i] per element of the list l, n elements.
// freshEmpty: an empty list that shares no storage with another one.
func (e *Eng) freshEmpty(c *Term) bool {
	return c.isNil() || c.op == OpZero || c.op == OpMake && len(c.args) > 0 && isZeroInt(c.args[0]) || c.op != OpSlice && isZeroInt(e.in.Len(c))
}

// appendsOne: every round of the loop appends exactly one element to lo, which starts empty:
// before round i it has i elements.
func (e *Eng) appendsOne(lo *Term) bool {
	li := e.lvs[lo]
	if li == nil || len(li.steps) == 0 {
		return false
	}
	if !e.freshEmpty(stripConv(li.init)) {
		return false
	}
	for _, s := range li.steps {
		v := stripConv(s.val)
		if v.op != OpAppend || len(v.args) != 2 || stripConv(v.args[0]) != lo {
			return false
		}
		if n, ok := e.in.Len(v.args[1]).intConst(); !ok || n.Int64() != 1 {
			return false
		}
	}
	return true
}

// loopDone: at this exit of the loop at least n rounds were made. lo is the list the loop fills
// or reads. A counter that starts at n, is lowered by one per round and tested against zero
// before each round counts the rounds just as well.
func (e *Eng) loopDone(st *State, iter, n, lo *Term) bool {
	if e.decide(st, e.in.cmpFact(token.LEQ, n, iter, true, true)) == yes {
		return true
	}
	if e.decide(st, e.in.cmpFact(token.LEQ, e.in.Sub(n, iter), e.in.Int(0), true, true)) == yes ||
		e.decide(st, e.in.cmpFact(token.EQL, e.in.Sub(n, iter), e.in.Int(0), true, true)) == yes {
		return true
	}
	return e.appendsOne(lo) && e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Len(lo), true, true)) == yes
}

// loopWithin: in this round the number of completed rounds is below n.
func (e *Eng) loopWithin(st *State, iter, n, lo *Term) bool {
	if e.decide(st, e.in.cmpFact(token.LSS, iter, n, true, true)) == yes {
		return true
	}
	if d := e.in.Sub(n, iter); e.decide(st, e.in.cmpFact(token.LSS, e.in.Int(0), d, true, true)) == yes ||
		e.decide(st, e.in.cmpFact(token.NEQ, d, e.in.Int(0), true, true)) == yes {
		return true
	}
	return e.appendsOne(lo) && e.decide(st, e.in.cmpFact(token.LSS, e.in.Len(lo), n, true, true)) == yes
}

func (m *gm) loop(it gItem, f gval, l, n *Term, ops []wop, i int, st *State, w string) (int, error) {
	if i >= len(ops) || ops[i].kind != "star" {
		return i, fmt.Errorf("%s: a loop over the elements expected, found %s", w, m.at(ops, i))
	}
	star := ops[i]
	info := m.e.lvs[star.lv]
	lp := m.e.loops[info.loop]
	sl, ok := f.typ.Underlying().(*types.Slice)
	if !ok {
		return i, fmt.Errorf("%s is not a list", w)
	}
	lo := stripConv(l)
	if !m.e.loopDone(st, lp.iter, n, lo) {
		return i, fmt.Errorf("%s: the loop may end before the last of %s elements", w, n)
	}
	if m.read && lo.op == OpMake && (len(lo.args) == 0 || !m.same(lo.args[0], n)) {
		return i, fmt.Errorf("%s: the list is made for %v elements", w, lo.args)
	}
	for k, a := range star.alts {
		if !m.e.loopWithin(a.st, lp.iter, n, lo) {
			return i, fmt.Errorf("%s: the loop may run past the last of %s elements", w, n)
		}
		var el gval
		el.typ = sl.Elem()
		switch {
		case !m.read:
			el.t = m.e.in.Elem(l, lp.iter, sl.Elem())
		case m.e.lvs[lo] != nil && m.e.lvs[lo].loop == info.loop && len(m.e.lvs[lo].steps) == len(star.alts):
			li := m.e.lvs[lo]
			if c := stripConv(li.init); !m.e.freshEmpty(c) {
				return i, fmt.Errorf("%s: the list starts as %s", w, c)
			}
			s := stripConv(li.steps[k].val)
			if s.op != OpAppend || len(s.args) != 2 || stripConv(s.args[0]) != lo || !m.same(m.e.in.Len(s.args[1]), m.e.in.Int(1)) {
				return i, fmt.Errorf("%s: a round sets the list to %s", w, s)
			}
			el.t = m.e.in.Elem(s.args[1], m.e.in.Int(0), sl.Elem())
		case lo.op == OpMake:
			p := m.e.in.mk(Term{op: OpIAddr, args: []*Term{lo, lp.iter}, typ: sl.Elem()})
			el.t = m.e.load(a.st, p)
		default:
			return i, fmt.Errorf("%s: the list is %s, not filled by the loop", w, l)
		}
		j, err := m.seq(it.sub, el, a.ops, 0, a.st, w+"[i]")
		if err != nil {
			return i, err
		}
		if j != len(a.ops) {
			return i, fmt.Errorf("%s[i]: unexpected %s", w, m.at(a.ops, j))
		}
	}
	// every alternative of the grammar occurs
	for _, s := range it.sub {
		for _, a := range s.alts {
			if !m.tags[fmt.Sprintf("%s[i].%s=%d", w, s.sink, a.tag)] {
				return i, fmt.Errorf("%s[i]: the alternative %s (tag %d) is missing", w, a.typ, a.tag)
			}
		}
	}
	return i + 1, nil
}

func (m *gm) choice(it gItem, f gval, ops []wop, i int, st *State, w string) (int, error) {
	if i >= len(ops) {
		if !m.read {
			// a value of a kind the format does not know: nothing is written
			t := m.load(st, f)
			for _, a := range it.alts {
				if ty := m.e.p.typeNamed(a.typ); ty == nil || m.e.decideTerm(st, m.e.isTerm(t, ty)) != no {
					return i, fmt.Errorf("%s: nothing is written for %s", w, a.typ)
				}
			}
			return i, nil
		}
		return i, fmt.Errorf("%s: a tag is expected, found nothing", w)
	}
	o := ops[i]
	if o.kind != "raw1" && o.kind != "uv" {
		return i, fmt.Errorf("%s: a tag is expected, found %s", w, m.at(ops, i))
	}
	for _, a := range it.alts {
		ty := m.e.p.typeNamed(a.typ)
		if ty == nil {
			return i, fmt.Errorf("no type %s", a.typ)
		}
		var el gval
		t := m.load(st, f)
		if m.read {
			v := m.e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{o.val}, typ: types.Typ[types.Uint8]})
			if o.kind == "uv" {
				v = m.e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{o.val}, typ: types.Typ[types.Uint64]})
			}
			if m.e.decide(st, m.e.in.cmpFact(token.EQL, v, m.e.in.Int(a.tag), true, true)) != yes {
				continue
			}
			if t.op != OpIface || !types.Identical(t.typ, ty) {
				return i, fmt.Errorf("%s: tag %d is read as %s", w, a.tag, t)
			}
			el = gval{t.args[0], ty}
		} else {
			c, ok := stripConv(o.val).intConst()
			if !ok || c.Cmp(big.NewInt(a.tag)) != 0 || (o.kind == "uv" && a.tag > 127) {
				continue
			}
			if m.e.decideTerm(st, m.e.isTerm(t, ty)) != yes {
				return i, fmt.Errorf("%s: tag %d is written for a value that may not be %s", w, a.tag, a.typ)
			}
			el = gval{m.e.asTerm(t, ty), ty}
		}
		m.tags[fmt.Sprintf("%s=%d", w, a.tag)] = true
		return m.seq(a.sub, el, ops, i+1, st, w)
	}
	return i, fmt.Errorf("%s: unknown tag %s", w, m.at(ops, i))
}

func (p *Prog) typeNamed(q string) types.Type {
	i := strings.LastIndex(q, ".")
	if n := p.Named(q[:i], q[i+1:]); n != nil {
		return n
	}
	return nil
}
