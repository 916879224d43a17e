package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Wire formats, decided by grammar.

func codecCfg() EngCfg {
	return EngCfg{Streams: true, PathMode: true, Opaque: func(f *ssa.Function) bool {
		switch fname(f) {
		case "crypto.Keccak", "cryptonote.treeDepth", "cryptonote.TxExtraFromBytes":
			return true
		}
		return false
	}}
}

var prefixGrammar = []gItem{
	uv("Version", 8), uv("UnlockHeight", 64),
	list("Inputs", tagged("",
		alt(0xff, "cryptonote.InputCoinbase", uv("BlockIndex", 32)),
		alt(2, "cryptonote.InputKey", uv("Amount", 64), list("OutputIndexes", uv("", 32)), raw("raw32", "KeyImage")))),
	list("Outputs", uv("Amount", 64), tagged("Target", alt(2, "cryptonote.OutputKey", raw("raw32", "PublicKey")))),
	bts("Extra"),
}

// writes: on every path the returned bytes follow the grammar.
func (c *Ctx) writes(rule, label string, fn *ssa.Function, items []gItem, seeds ...Seed) {
	c.writesCfg(rule, label, fn, codecCfg(), items, seeds...)
}

func (c *Ctx) writesCfg(rule, label string, fn *ssa.Function, cfg EngCfg, items []gItem, seeds ...Seed) {
	r := c.run(label, fn, cfg, nil, seeds...)
	if r == nil {
		return
	}
	con := fname(fn)
	if label != "" {
		con += " [" + label + "]"
	}
	if len(r.outs) == 0 {
		c.ob(rule, con, fn.Pos(), false, "no path returns")
		return
	}
	for _, o := range r.outs {
		ops, ok := r.e.wops(r.e.bytesOf(o.st, o.res[0]), nil, 0)
		if os.Getenv("KC_DUMP") == rule {
			fmt.Println("  >", ok, opsString(ops))
			if !ok {
				fmt.Println("   ", r.e.bytesOf(o.st, o.res[0]))
			}
		}
		if !ok {
			c.ob(rule, con, o.pos, false, "the bytes written are not a known sequence of items")
			return
		}
		m := &gm{e: r.e, fin: o.st, tags: map[string]bool{}}
		i, err := m.seq(items, gval{r.args[0], fn.Params[0].Type()}, ops, 0, o.st, "")
		if err == nil && i != len(ops) {
			err = fmt.Errorf("unexpected %s at the end", m.at(ops, i))
		}
		if err != nil {
			c.ob(rule, con, o.pos, false, "written: "+err.Error())
			return
		}
		c.counts["items written"] += m.n
	}
	c.ob(rule, con, fn.Pos(), true, "every path writes the grammar")
}

// reads: on every successful path the operations on the reader (parameter rd) follow the grammar, each
// field of the value (parameter v) holding what was read for it.
func (c *Ctx) reads(rule, label string, fn *ssa.Function, rd, v int, items []gItem, seeds ...Seed) *Run {
	return c.readsBy(rule, label, fn, rd, v, func(*gm, *State, gval) [][]gItem { return [][]gItem{items} }, seeds...)
}

// readsBy: the grammars possible for the decoded value in its final state; each has to match. Without a
// reader parameter (rd < 0) the function reads from a reader of its own over the bytes given by src,
// returns the decoded value (v < 0), and nothing may be left over.
func (c *Ctx) readsBy(rule, label string, fn *ssa.Function, rd, v int, gs func(*gm, *State, gval) [][]gItem, seeds ...Seed) *Run {
	return c.readsFrom(rule, label, fn, rd, v, nil, gs, seeds...)
}

func (c *Ctx) readsFrom(rule, label string, fn *ssa.Function, rd, v int, src func(m *gm, st *State, args []*Term) *Term, gs func(*gm, *State, gval) [][]gItem, seeds ...Seed) *Run {
	r := c.run(label, fn, codecCfg(), nil, seeds...)
	if r == nil {
		return nil
	}
	con := fname(fn)
	if label != "" {
		con += " [" + label + "]"
	}
	succ := r.success()
	if len(succ) == 0 {
		c.ob(rule, con, fn.Pos(), false, "no path succeeds")
		return r
	}
	for _, o := range succ {
		var pos *Term
		var base gval
		m := &gm{e: r.e, read: true, fin: o.st, tags: map[string]bool{}}
		if rd >= 0 {
			pos = r.e.getCell(o.st, "r", r.args[rd])
		} else if p, err := m.ownReader(o.st, src(m, o.st, r.args)); err != nil {
			c.ob(rule, con, o.pos, false, err.Error())
			return r
		} else {
			pos = p
		}
		if v >= 0 {
			base = gval{r.args[v], fn.Params[v].Type()}
		} else {
			base = gval{o.res[0], fn.Signature.Results().At(0).Type()}
		}
		n, err := m.decoded(rule, o.st, pos, base, gs(m, o.st, base))
		if err != nil {
			c.ob(rule, con, o.pos, false, err.Error())
			return r
		}
		c.counts["items read"] += n
	}
	c.ob(rule, con, fn.Pos(), true, "every successful path reads the grammar")
	return r
}

// ownReader finds the reader over the given bytes and checks that it is exhausted.
func (m *gm) ownReader(st *State, src *Term) (*Term, error) {
	e := m.e
	var pos *Term
	want := e.bytesOf(st, src)
	for k, v := range st.store {
		if k.op != OpCall || k.str != "$cell:r" {
			continue
		}
		s := v
		for d := 0; d < 200 && (s.op == OpCall && s.str != "r:start" || e.lvs[s] != nil); d++ {
			if li := e.lvs[s]; li != nil {
				s = li.init
			} else {
				s = s.args[0]
			}
		}
		if s.op == OpCall && s.str == "r:start" && len(s.args) == 1 && s.args[0].str == "bytesof" && s.args[0].args[0] == want {
			if pos != nil {
				return nil, fmt.Errorf("the data is read by more than one reader")
			}
			pos = v
		}
	}
	if pos == nil {
		return nil, fmt.Errorf("no reader of %s", src)
	}
	rem := e.in.mk(Term{op: OpCall, str: "remaining", args: []*Term{pos}, typ: types.Typ[types.Int]})
	if e.decide(st, e.in.cmpFact(token.EQL, rem, e.in.Int(0), true, true)) != yes {
		return nil, fmt.Errorf("bytes may be left over after the value read")
	}
	return pos, nil
}

// decoded: what was read from the reader up to pos follows every one of the grammars.
func (m *gm) decoded(rule string, st *State, pos *Term, base gval, gs [][]gItem) (int, error) {
	ops, ok := m.e.wops(pos, nil, 0)
	if os.Getenv("KC_DUMP") == rule {
		fmt.Println("  <", ok, opsString(ops))
		if !ok {
			fmt.Println("   ", pos)
		}
	}
	if !ok {
		return 0, fmt.Errorf("a path succeeds after operations on the reader that are not a known sequence of items (a failed read among them)")
	}
	if len(gs) == 0 {
		return 0, fmt.Errorf("a path succeeds for no known version")
	}
	n := 0
	for _, items := range gs {
		m := &gm{e: m.e, read: true, fin: st, tags: map[string]bool{}}
		i, err := m.seq(items, base, ops, 0, st, "")
		if err == nil && i != len(ops) {
			err = fmt.Errorf("unexpected %s at the end", m.at(ops, i))
		}
		if err != nil {
			return n, fmt.Errorf("read: %w", err)
		}
		n += m.n
	}
	return n, nil
}

// blockGrammars: those possible for the major version read.
func blockGrammars(m *gm, st *State, b gval) (gs [][]gItem) {
	f, err := m.field(st, b, "MajorVersion")
	if err != nil {
		return nil
	}
	mv := m.load(st, f)
	for v := int64(0); v <= 255; v++ {
		if m.e.decide(st, m.e.in.cmpFact(token.EQL, mv, m.e.in.Int(v), true, true)) != no {
			if v < 1 || v > 5 {
				return nil
			}
			gs = append(gs, blockGrammar(v))
		}
	}
	return gs
}

// rawTransactions: every transaction of a block is decoded from its own bytes, completely.
func (c *Ctx) rawTransactions(rule string, fn *ssa.Function, rt int) {
	r := c.run("", fn, codecCfg(), nil)
	if r == nil {
		return
	}
	e := r.e
	con := fname(fn)
	succ := r.success()
	if len(succ) == 0 {
		c.ob(rule, con, fn.Pos(), false, "no path succeeds")
	}
	ty := e.p.typeNamed("cryptonote.Transaction")
	raw := r.args[rt]
	for _, o := range succ {
		l := stripConv(o.res[0])
		found := false
		n := e.in.Len(raw)
		m := &gm{e: e, read: true, fin: o.st, tags: map[string]bool{}}
		for _, lp := range e.loops {
			if len(lp.backs) == 0 || e.decide(o.st, e.in.cmpFact(token.LEQ, n, lp.iter, true, true)) != yes {
				continue
			}
			found = true
			if l.op != OpMake || len(l.args) != 1 || !m.same(l.args[0], n) {
				c.ob(rule, con, o.pos, false, fmt.Sprintf("the list returned is %s", l))
				return
			}
			for _, st := range lp.backs {
				src := e.in.Elem(raw, lp.iter, types.NewSlice(types.Typ[types.Uint8]))
				pos, err := m.ownReader(st, src)
				if err != nil {
					c.ob(rule, con, lp.pos, false, err.Error())
					return
				}
				p := e.in.mk(Term{op: OpIAddr, args: []*Term{l, lp.iter}, typ: ty})
				k, err := m.decoded(rule, st, pos, gval{p, types.NewPointer(ty)}, [][]gItem{txGrammar()})
				if err != nil {
					c.ob(rule, con, lp.pos, false, err.Error())
					return
				}
				c.counts["items read"] += k
			}
		}
		if !found {
			c.ob(rule, con, o.pos, false, "a path succeeds without reading every transaction")
			return
		}
	}
	c.ob(rule, con, fn.Pos(), true, "every transaction is read from its own bytes, none of which is left over")
}

var sigItem = gItem{kind: "custom", sink: "TransactionSignatures", check: matchSigs}

// matchSigs: per input, in order, as many 64 byte signatures as the input announces; a list entry per
// input, unless the transaction is a coinbase transaction.
func matchSigs(m *gm, f gval, ops []wop, i int, st *State, w string) (int, error) {
	e := m.e
	// f is tx.TransactionSignatures; the inputs are a sibling
	tx := gval{f.t.args[0], m.e.p.typeNamed("cryptonote.Transaction")}
	if f.t.op == OpFAddr {
		tx.typ = types.NewPointer(tx.typ)
	}
	inf, err := m.field(st, tx, "Inputs")
	if err != nil {
		return i, err
	}
	inputs := m.load(st, inf)
	n := e.in.Len(inputs)
	elem := func(st *State, i *Term) *Term {
		return e.load(st, e.in.mk(Term{op: OpIAddr, args: []*Term{inputs, i}, typ: inf.typ.Underlying().(*types.Slice).Elem()}))
	}
	if m.read && (i >= len(ops) || ops[i].kind != "star") {
		// a loop whose every successful round reads nothing: only for transactions without signatures
		one := e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(1), true, true)) == yes
		cb := e.decideTerm(st, e.isTerm(elem(st, e.in.Int(0)), e.p.typeNamed("cryptonote.InputCoinbase"))) == yes
		empty := e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(0), true, true)) == yes
		if one && cb || empty {
			return i, nil
		}
	}
	if i >= len(ops) || ops[i].kind != "star" {
		return i, fmt.Errorf("%s: a loop over the inputs expected, found %s", w, m.at(ops, i))
	}
	star := ops[i]
	info := e.lvs[star.lv]
	lp := e.loops[info.loop]
	if !e.loopDone(st, lp.iter, n, stripConv(m.load(st, f))) {
		return i, fmt.Errorf("%s: the loop may end before the last input", w)
	}
	ts := m.load(st, f)
	li := e.lvs[ts]
	if m.read {
		if li == nil || li.loop != info.loop || len(li.steps) != len(star.alts) {
			return i, fmt.Errorf("%s: the list is %s, not filled by the loop", w, ts)
		}
	}
	full := false
	for k, a := range star.alts {
		in := elem(a.st, lp.iter)
		cnt := e.callOn("cryptonote.TransactionInput.sigCount", types.Typ[types.Int], in)
		var el *Term
		if m.read {
			s := stripConv(li.steps[k].val)
			switch {
			case s == ts:
				// no entry: only in a coinbase transaction
				one := e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(1), true, true)) == yes
				cb := e.decideTerm(st, e.isTerm(elem(st, e.in.Int(0)), e.p.typeNamed("cryptonote.InputCoinbase"))) == yes
				empty := e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(0), true, true)) == yes
				if !(one && cb || empty) {
					return i, fmt.Errorf("%s: an input without an entry of its own", w)
				}
			case s.op == OpAppend && len(s.args) == 2 && stripConv(s.args[0]) == ts && m.same(e.in.Len(s.args[1]), e.in.Int(1)):
				el = e.in.Elem(s.args[1], e.in.Int(0), nil)
			default:
				return i, fmt.Errorf("%s: a round sets the list to %s", w, s)
			}
		} else {
			el = e.in.Elem(ts, lp.iter, nil)
		}
		if len(a.ops) == 0 {
			if e.decide(a.st, e.in.cmpFact(token.EQL, cnt, e.in.Int(0), true, true)) != yes {
				return i, fmt.Errorf("%s[i]: nothing although the input may have signatures", w)
			}
			if el != nil && m.read && !isZeroInt(e.in.Len(el)) && !el.isNil() {
				return i, fmt.Errorf("%s[i]: the entry of an input without signatures is %s", w, el)
			}
			continue
		}
		full = true
		c := e.in.Len(el)
		if m.read {
			c = cnt
		}
		sigs := e.p.typeNamed("crypto.Signature")
		if el == nil || sigs == nil {
			return i, fmt.Errorf("%s[i]: signatures without an entry", w)
		}
		fv := gval{el, types.NewSlice(sigs)}
		j, err := m.loop(rep("", raw("raw64", "")), fv, el, c, a.ops, 0, a.st, w+"[i]")
		if err != nil {
			return i, err
		}
		if j != len(a.ops) {
			return i, fmt.Errorf("%s[i]: unexpected %s", w, m.at(a.ops, j))
		}
	}
	if !full && !(m.read && len(star.alts) > 0 && e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(1), true, true)) == yes) {
		return i, fmt.Errorf("%s: no signatures for any input", w)
	}
	return i + 1, nil
}

func txGrammar() []gItem { return append(append([]gItem{}, prefixGrammar...), sigItem) }

func seedByteEq(arg int, name string, v int64) Seed { return seedField(arg, name, token.EQL, v) }

func headerGrammar(v int64) []gItem {
	g := []gItem{uv("MajorVersion", 8), uv("MinorVersion", 8)}
	if v == 2 || v == 3 {
		return append(g, raw("raw32", "PreviousBlockHash"))
	}
	return append(g, uv("Timestamp", 64), raw("raw32", "PreviousBlockHash"), raw("raw4le", "Nonce"))
}

func parentGrammar(base []gItem) []gItem {
	depth := rep("BaseTransactionBranch", raw("raw32", ""))
	depth.count = func(m *gm, st *State, base gval) *Term {
		f, err := m.field(st, base, "TransactionsCount")
		if err != nil {
			return nil
		}
		n := stripConv(m.load(st, f))
		return m.boundCall(st, "cryptonote.treeDepth", n)
	}
	chain := rep("BlockchainBranch", raw("raw32", ""))
	chain.count = func(m *gm, st *State, base gval) *Term { return m.tagDepth(st, base) }
	g := []gItem{uv("MajorVersion", 8), uv("MinorVersion", 8), uv("Timestamp", 64), raw("raw32", "Prev"), raw("raw4le", "Nonce")}
	g = append(g, base...)
	return append(g, uv("TransactionsCount", 16), depth, group("BaseTransaction", prefixGrammar...), chain)
}

// fromParent: the field is not written; a decoded block takes it from its parent block.
func fromParent(name string) gItem {
	return gItem{kind: "custom", sink: name, check: func(m *gm, f gval, ops []wop, i int, st *State, w string) (int, error) {
		if !m.read {
			return i, nil
		}
		pb, err := m.field(st, gval{blockOf(f.t), types.NewPointer(m.e.p.typeNamed("cryptonote.Block"))}, "Parent")
		if err != nil {
			return i, err
		}
		pf, err := m.field(st, pb, name)
		if err != nil {
			return i, err
		}
		if v, want := m.load(st, f), m.load(st, pf); v != want {
			return i, fmt.Errorf("%s: the field holds %s, not that of the parent block", w, v)
		}
		return i, nil
	}}
}

func blockOf(t *Term) *Term {
	for t.op == OpFAddr {
		t = t.args[0]
	}
	return t
}

func blockGrammar(v int64) []gItem {
	g := headerGrammar(v)
	if v >= 5 {
		g = append(g, raw("raw64", "Signature"))
	}
	if v == 2 || v == 3 {
		g = append(g, group("Parent", parentGrammar(nil)...), fromParent("Timestamp"), fromParent("Nonce"))
	}
	g = append(g, group("BaseTransaction", txGrammar()...))
	return append(g, list("TransactionsHashes", raw("raw32", "")))
}

// boundCall finds the call of fn on x that bounds a loop in this state.
func (m *gm) boundCall(st *State, fn string, x *Term) *Term {
	for _, f := range st.facts.list() {
		if f.kind == "LE" && f.a != nil && f.b != nil && f.b.op == OpIter && f.c.Sign() <= 0 {
			if t := stripAbove(f.a, 8); t.op == OpCall && t.str == fn && m.same(stripAbove(t.args[0], 17), x) {
				return f.a
			}
		}
	}
	return nil
}

// tagDepth finds the merge mining depth announced in the extra field of the parent's base transaction;
// it has to be known to be at most 256.
func (m *gm) tagDepth(st *State, base gval) *Term {
	bt, err := m.field(st, base, "BaseTransaction")
	if err != nil {
		return nil
	}
	ex, err := m.field(st, bt, "Extra")
	if err != nil {
		return nil
	}
	c := m.e.bytesOf(st, m.load(st, ex))
	for _, f := range st.facts.list() {
		if f.kind != "LE" || f.a == nil || f.b == nil || f.b.op != OpIter || f.c.Sign() > 0 {
			continue
		}
		t := stripAbove(f.a, 9)
		if t.op != OpField || t.str != "Depth" || t.args[0].op != OpField || t.args[0].str != "MiningTag" {
			continue
		}
		call := t.args[0].args[0]
		for call.op != OpCall && len(call.args) > 0 {
			call = call.args[0]
		}
		if call.op != OpCall || call.str != "cryptonote.TxExtraFromBytes" || len(call.args) != 1 {
			continue
		}
		if a := call.args[0]; a.op == OpCall && a.str == "bytesof" && a.args[0] == c &&
			m.e.decide(st, m.e.in.cmpFact(token.LEQ, t, m.e.in.Int(256), true, true)) == yes {
			return f.a
		}
	}
	return nil
}

func hashCfg() EngCfg {
	c := codecCfg()
	op := c.Opaque
	c.Opaque = func(f *ssa.Function) bool {
		switch fname(f) {
		case "crypto.HashList.MerkleRootHash", "crypto.HashList.TreeHashFromBranch":
			return true
		}
		return op(f)
	}
	return c
}

// keccakOf: t is the 32 byte hash of a known content.
func keccakOf(t *Term) (*Term, bool) {
	for {
		switch {
		case t.op == OpCall && t.str == "copied" && len(t.args) == 3 && isZeroInt(t.args[1]):
			if c, ok := t.args[2].intConst(); !ok || c.Int64() != 32 {
				return nil, false
			}
			t = t.args[0]
		case t.op == OpCall && t.str == "copyof" && len(t.args) == 1:
			// a copy into an array as long as the hash
			at := t.typ
			if at == nil {
				return nil, false
			}
			if p, ok := at.Underlying().(*types.Pointer); ok {
				at = p.Elem()
			}
			if a, ok := at.Underlying().(*types.Array); !ok || a.Len() != 32 {
				return nil, false
			}
			t = t.args[0]
			for t.op == OpSlice { // of all of it
				if n, ok := t.args[2].intConst(); !t.args[2].isNil() && !(ok && n.Int64() == 32) {
					return nil, false
				}
				t = t.args[0]
			}
		case t.op == OpSlice:
			if !(t.args[1].isNil() || isZeroInt(t.args[1])) {
				return nil, false
			}
			t = t.args[0]
		case t.op == OpConv || t.op == OpIface:
			t = t.args[0]
		case t.op == OpCall && (t.str == "crypto.Keccak" || t.str == "keccak256") && len(t.args) == 1:
			a := t.args[0]
			if a.op == OpCall && a.str == "bytesof" {
				return a.args[0], true
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

// value is what a place held initially.
func (m *gm) value(p *Term) *Term {
	if p.op == OpFAddr {
		return m.e.in.Field(m.value(p.args[0]), p.str, p.typ, 0)
	}
	return p
}

// isHashOf: t is the identity hash of the object at base: its cached hash, or the hash of what the
// grammar describes.
func (m *gm) isHashOf(st *State, t *Term, base gval, items []gItem) error {
	if isPlace(t) {
		t = m.e.load(st, t)
	}
	if t.op == OpField && t.str == "hash" && t.args[0] == m.value(base.t) {
		return nil
	}
	c, ok := keccakOf(t)
	if !ok {
		return fmt.Errorf("%s is not a Keccak hash of known bytes", t)
	}
	ops, ok := m.e.wops(c, nil, 0)
	if !ok {
		return fmt.Errorf("the hashed bytes are not a known sequence of items")
	}
	m2 := &gm{e: m.e, fin: st, tags: map[string]bool{}}
	i, err := m2.seq(items, base, ops, 0, st, "")
	if err == nil && i != len(ops) {
		err = fmt.Errorf("unexpected %s at the end", m.at(ops, i))
	}
	m.n += m2.n
	return err
}

// hashItem: 32 bytes, the result of fn on check's arguments.
func hashItem(fn string, check func(m *gm, f gval, call *Term, st *State) error) gItem {
	return gItem{kind: "custom", sink: "", check: func(m *gm, f gval, ops []wop, i int, st *State, w string) (int, error) {
		if i >= len(ops) || ops[i].kind != "raw32" {
			return i, fmt.Errorf("%s: %s expected, found %s", w, fn, m.at(ops, i))
		}
		t := ops[i].val
		if isPlace(t) {
			t = m.e.load(st, t)
		}
		t = stripConv(t)
		if t.op != OpCall || t.str != fn {
			return i, fmt.Errorf("%s: %s expected, found %s", w, fn, t)
		}
		if err := check(m, f, t, st); err != nil {
			return i, fmt.Errorf("%s: %s: %w", w, fn, err)
		}
		return i + 1, nil
	}}
}

// allHashes: l is the hash of the base transaction of the block followed by the transaction hashes.
func (m *gm) allHashes(st *State, b gval, l *Term) error {
	bt, err := m.field(st, b, "BaseTransaction")
	if err != nil {
		return err
	}
	th, err := m.field(st, b, "TransactionsHashes")
	if err != nil {
		return err
	}
	txs := m.load(st, th)
	l = stripConv(l)
	first := func(t *Term) error {
		if t = stripConv(t); !m.same(m.e.in.Len(t), m.e.in.Int(1)) {
			return fmt.Errorf("the list starts with %s", t)
		}
		el := m.e.in.Elem(t, m.e.in.Int(0), nil)
		if t.op == OpObj { // the elements of a literal are still in its backing array
			el = m.e.load(st, m.e.in.mk(Term{op: OpIAddr, args: []*Term{t, m.e.in.Int(0)}, typ: el.typ}))
		}
		return m.isHashOf(st, el, bt, txGrammar())
	}
	if l.op == OpAppend && len(l.args) == 2 && m.same(l.args[1], txs) {
		return first(l.args[0])
	}
	if li := m.e.lvs[l]; li != nil {
		it := m.e.loops[li.loop].iter
		if !m.e.loopDone(st, it, m.e.in.Len(txs), nil) {
			return fmt.Errorf("the list may end before the last transaction hash")
		}
		for _, s := range li.steps {
			v := stripConv(s.val)
			if v.op != OpAppend || len(v.args) != 2 || stripConv(v.args[0]) != l || !m.same(m.e.in.Len(v.args[1]), m.e.in.Int(1)) ||
				!m.same(m.e.in.Elem(v.args[1], m.e.in.Int(0), nil), m.e.in.Elem(txs, it, nil)) {
				return fmt.Errorf("a round sets the list to %s", v)
			}
		}
		return first(li.init)
	}
	return fmt.Errorf("the list is %s", l)
}

func hashingGrammar(v int64) []gItem {
	g := headerGrammar(v)
	g = append(g, hashItem("crypto.HashList.MerkleRootHash", func(m *gm, b gval, call *Term, st *State) error {
		return m.allHashes(st, b, call.args[0])
	}))
	return append(g, gItem{kind: "custom", check: func(m *gm, b gval, ops []wop, i int, st *State, w string) (int, error) {
		th, err := m.field(st, b, "TransactionsHashes")
		if err != nil {
			return i, err
		}
		n := m.e.in.Add(m.e.in.Len(m.load(st, th)), m.e.in.Int(1))
		if i < len(ops) && ops[i].kind == "uv" {
			t := stripConv(ops[i].val)
			if m.same(t, n) || t.op == OpLen && m.allHashes(st, b, t.args[0]) == nil {
				return i + 1, nil
			}
		}
		return i, fmt.Errorf("%s: the number of transactions expected, found %s", w, m.at(ops, i))
	}})
}

func identityGrammar(v int64) []gItem {
	g := hashingGrammar(v)
	if v == 2 || v == 3 {
		g = append(g, group("Parent", parentGrammar([]gItem{hashItem("crypto.HashList.TreeHashFromBranch", func(m *gm, pb gval, call *Term, st *State) error {
			br, err := m.field(st, pb, "BaseTransactionBranch")
			if err != nil {
				return err
			}
			bt, err := m.field(st, pb, "BaseTransaction")
			if err != nil {
				return err
			}
			if len(call.args) != 2 || !m.same(call.args[0], m.load(st, br)) {
				return fmt.Errorf("not of the base transaction branch")
			}
			return m.isHashOf(st, call.args[1], bt, prefixGrammar)
		})})...))
	}
	// the number of bytes, then the bytes
	return []gItem{{kind: "custom", check: func(m *gm, b gval, ops []wop, i int, st *State, w string) (int, error) {
		if len(ops) == 0 || ops[0].kind != "uv" {
			return 0, fmt.Errorf("the number of bytes expected, found %s", m.at(ops, 0))
		}
		t := stripConv(ops[0].val)
		if t.op != OpLen || t.args[0].op != OpCall || t.args[0].str != "bytesof" {
			return 0, fmt.Errorf("the number of bytes expected, found %s", t)
		}
		o2, ok := m.e.wops(t.args[0].args[0], nil, 0)
		if !ok || opsString(o2) != opsString(ops[1:]) {
			return 0, fmt.Errorf("the number written is not that of the bytes hashed")
		}
		for k := range o2 {
			if o2[k].val != ops[k+1].val || o2[k].kind != ops[k+1].kind {
				return 0, fmt.Errorf("the number written is not that of the bytes hashed")
			}
		}
		j, err := m.seq(g, b, ops, 1, st, "")
		return j, err
	}}}
}

// hashes: every path returns the own cached hash or computes it from the grammar and keeps it nowhere else.
func (c *Ctx) hashes(rule, label string, fn *ssa.Function, items []gItem, seeds ...Seed) {
	r := c.run(label, fn, hashCfg(), nil, seeds...)
	if r == nil {
		return
	}
	con := fname(fn)
	if label != "" {
		con += " [" + label + "]"
	}
	computed := 0
	for _, o := range r.outs {
		m := &gm{e: r.e, fin: o.st, tags: map[string]bool{}}
		v := o.res[0]
		if v.op == OpField && v.str == "hash" && v.args[0] == r.args[0] {
			if r.e.nilness(o.st, v) != no {
				c.ob(rule, con, o.pos, false, "the cached hash is returned before it is computed")
				return
			}
			continue
		}
		if err := m.isHashOf(o.st, v, gval{r.args[0], fn.Params[0].Type()}, items); err != nil {
			c.ob(rule, con, o.pos, false, err.Error())
			return
		}
		c.counts["items hashed"] += m.n
		computed++
		for k, h := range o.st.store {
			if k.op != OpFAddr || k.str != "hash" || k.args[0] == r.args[0] {
				continue
			}
			g := prefixGrammar
			ty := k.uid
			switch ty {
			case "Transaction":
				g = txGrammar()
			case "TransactionPrefix", "BaseTransaction":
			default:
				c.ob(rule, con, o.pos, false, "the hash of another object is kept in "+k.String())
				return
			}
			if err := m.isHashOf(o.st, h, gval{k.args[0], types.NewPointer(c.p.typeNamed("cryptonote." + ty))}, g); err != nil {
				c.ob(rule, con, o.pos, false, "kept in "+k.String()+": "+err.Error())
				return
			}
		}
	}
	c.ob(rule, con, fn.Pos(), computed > 0, "every path hashes the grammar")
}

// seedGlobals: the contents of the constant variables of the package.
func (c *Ctx) seedGlobals(pkg string) Seed {
	return func(e *Eng, args []*Term, st *State) {
		p := c.p.SPkg[pkgPath(pkg)]
		if p == nil {
			e.problem("no package %s", pkg)
			return
		}
		e.importGlobals(p, st)
	}
}

// extraField: the fields of a transaction's extra data. Each round reads a tag and what belongs to it.
func (c *Ctx) extraField(rule string, fn *ssa.Function) {
	cfg := EngCfg{Streams: true, PathMode: true, Interval: true}
	r := c.run("", fn, cfg, nil, c.seedGlobals("cryptonote"))
	if r == nil {
		return
	}
	con := fname(fn)
	e := r.e
	bad := func(o Out, f string, a ...any) { c.ob(rule, con, o.pos, false, fmt.Sprintf(f, a...)) }
	succ := r.success()
	if len(succ) == 0 {
		c.ob(rule, con, fn.Pos(), false, "no path succeeds")
	}
	ty := derefType(fn.Signature.Results().At(0).Type())
	for _, o := range succ {
		var ops []wop
		n := 0
		for k, v := range o.st.store {
			if k.op == OpCall && k.str == "$cell:r" {
				x, ok := e.wops(v, nil, 0)
				if !ok {
					bad(o, "a path succeeds after a failed or unknown read")
					return
				}
				ops = x
				n++
			}
		}
		if os.Getenv("KC_DUMP") == rule {
			fmt.Println("  x", opsString(ops))
		}
		if n != 1 || len(ops) != 2 || ops[0].kind != "star" || ops[1].kind != "eof" {
			bad(o, "fields up to the end of the data expected, found %s", opsString(ops))
			return
		}
		m := &gm{e: e, read: true, fin: o.st, tags: map[string]bool{}}
		res := gval{o.res[0], types.NewPointer(ty)}
		seen := map[int64]bool{}
		for k, a := range ops[0].alts {
			if len(a.ops) == 0 || a.ops[0].kind != "raw1" {
				bad(o, "a tag expected, found %s", opsString(a.ops))
				return
			}
			rd := func(i int, t types.Type) *Term {
				return e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{a.ops[i].val}, typ: t})
			}
			eq := func(t *Term, v int64) bool {
				return e.decide(a.st, e.in.cmpFact(token.EQL, t, e.in.Int(v), true, true)) == yes
			}
			le := func(t *Term, v int64) bool {
				return e.decide(a.st, e.in.cmpFact(token.LEQ, t, e.in.Int(v), true, true)) == yes
			}
			// the values of the fields at the end of the round
			step := func(f string) (*Term, bool) {
				v, err := m.field(o.st, res, f)
				if err != nil {
					return nil, false
				}
				t := m.load(o.st, v)
				li := e.lvs[t]
				if li == nil || len(li.steps) != len(ops[0].alts) {
					return nil, false
				}
				if s := li.steps[k].val; s != t {
					return s, true
				}
				return nil, true
			}
			kinds := ""
			for _, x := range a.ops {
				kinds += x.kind + ";"
			}
			tag := int64(-1)
			for v := int64(0); v < 256; v++ {
				if eq(rd(0, types.Typ[types.Uint8]), v) {
					tag = v
				}
			}
			seen[tag] = true
			want := map[string]bool{}
			switch {
			case tag == 0 && (kinds == "raw1;star;eof;" || kinds == "raw1;eof;"):
				if len(a.ops) == 3 {
					it := e.loops[e.lvs[a.ops[1].lv].loop].iter
					for _, p := range a.ops[1].alts {
						z := len(p.ops) == 1 && p.ops[0].kind == "raw1"
						if z {
							pad := e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{p.ops[0].val}, typ: types.Typ[types.Uint8]})
							z = e.decide(p.st, e.in.cmpFact(token.EQL, pad, e.in.Int(0), true, true)) == yes &&
								e.decide(p.st, e.in.cmpFact(token.LEQ, it, e.in.Int(254), true, true)) == yes
						}
						if !z {
							bad(o, "padding of other bytes than zero, or of more than 255 bytes, is accepted")
							return
						}
					}
				}
			case tag == 1 && (kinds == "raw1;raw32;" || kinds == "raw1;var;"):
				want["PublicKey"] = true
				v, ok := step("PublicKey")
				if !ok || v == nil || !m.copyOf(a.st, v, a.ops[1], 32) {
					bad(o, "the public key becomes %v", v)
					return
				}
				if a.ops[1].kind == "var" && !m.same(a.ops[1].val.args[1], e.in.Int(32)) {
					bad(o, "the public key has %s bytes", a.ops[1].val.args[1])
					return
				}
			case tag == 2 && (kinds == "raw1;uv;" || kinds == "raw1;uv;var;"):
				n := rd(1, types.Typ[types.Uint64])
				if !le(n, 255) {
					bad(o, "a nonce of more than 255 bytes is accepted")
					return
				}
				if len(a.ops) == 2 {
					if !eq(n, 0) {
						bad(o, "a nonce is not read")
						return
					}
					want["Nonce"] = true
					break
				}
				want["Nonce"] = true
				v, ok := step("Nonce")
				if !ok || v == nil || !isRead(a.ops[2].val.args[1], a.ops[1]) || !m.copyOf(a.st, v, a.ops[2], -1) {
					bad(o, "the nonce becomes %v", v)
					return
				}
			case tag == 3 && kinds == "raw1;uv;uv;raw32;":
				if !eq(rd(1, types.Typ[types.Uint64]), 33) {
					bad(o, "a merge mining tag of another size than 33 is accepted")
					return
				}
				want["MiningTag"] = true
				v, ok := step("MiningTag")
				if !ok || v == nil {
					bad(o, "the merge mining tag is not kept")
					return
				}
				tv := gval{v, types.NewPointer(c.p.typeNamed("cryptonote.TransactionExtraMergeMiningTag"))}
				d, e1 := m.field(a.st, tv, "Depth")
				h, e2 := m.field(a.st, tv, "MerkleRoot")
				if e1 != nil || e2 != nil || !isRead(m.load(a.st, d), a.ops[2]) || !isRead(m.load(a.st, h), a.ops[3]) {
					bad(o, "the merge mining tag becomes %s", e.load(a.st, v))
					return
				}
			default:
				bad(o, "tag %d is followed by %s", tag, opsString(a.ops[1:]))
				return
			}
			for _, f := range []string{"PublicKey", "Nonce", "MiningTag"} {
				if v, ok := step(f); ok && v != nil && !want[f] {
					bad(o, "a field with tag %d changes %s", tag, f)
					return
				}
			}
			c.counts["extra fields"]++
		}
		for t := int64(0); t < 4; t++ {
			if !seen[t] {
				bad(o, "tag %d is not read", t)
				return
			}
		}
	}
	c.ob(rule, con, fn.Pos(), len(succ) > 0, "every successful path reads tagged fields up to the end of the data")
}

// copyOf: v holds the bytes read by o.
func (m *gm) copyOf(st *State, v *Term, o wop, n int64) bool {
	if isRead(v, o) {
		return true
	}
	t := v
	if t.op == OpCall && t.str == "copied" && isZeroInt(t.args[1]) && m.same(t.args[2], m.e.in.Int(n)) {
		t = t.args[0]
		for t.op == OpSlice || t.op == OpConv {
			t = t.args[0]
		}
		if isRead(t, o) {
			return true
		}
	}
	c := m.e.bytesOf(st, t)
	o2, ok := m.e.wops(c, nil, 0)
	return ok && len(o2) == 1 && isRead(o2[0].val, o)
}

// boundedAllocations: the size of every allocation made while decoding is bounded by what is left to
// read, by a constant, or by what has been read before.
func (c *Ctx) boundedAllocations(rule string, fn *ssa.Function) {
	cfg := codecCfg()
	op := cfg.Opaque
	cfg.Opaque = func(f *ssa.Function) bool { return op(f) && fname(f) != "cryptonote.TxExtraFromBytes" }
	cfg.TrackIdx = true
	cfg.Interval = true
	r := c.run("", fn, cfg, nil, c.seedGlobals("cryptonote"))
	if r == nil {
		return
	}
	e := r.e
	con := fname(fn)
	n := 0
	bad := map[token.Pos]bool{}
	for _, o := range e.obs {
		if o.name != "make" {
			continue
		}
		n++
		for _, sz := range o.args {
			ok, why := e.boundedSize(o.st, sz)
			if !ok && !bad[o.pos] {
				bad[o.pos] = true
				c.ob(rule, con+" > "+fname(o.fn), o.pos, false, "an allocation of "+why+" elements is not bounded by the data present")
			}
		}
	}
	if len(bad) == 0 {
		c.ob(rule, con, fn.Pos(), true, fmt.Sprintf("%d allocations", n))
	}
	c.counts["allocations"] += n
}

func (e *Eng) boundedSize(st *State, t *Term) (bool, string) {
	s := stripConv(t)
	for x := t; x != nil && x.typ != nil; x = x.args[0] {
		if w := scalarWidth(x.typ); w > 0 && w <= 2 {
			return true, "" // a byte or two
		}
		if x.op != OpConv {
			break
		}
	}
	if _, ok := s.intConst(); ok {
		return true, ""
	}
	for _, x := range []*Term{t, s} {
		if e.decide(st, e.in.cmpFact(token.LEQ, x, e.in.Int(1<<16), true, true)) == yes {
			return true, ""
		}
		for f := range st.facts.m {
			if f.kind == "LE" && f.a == x && f.b != nil && f.c.Sign() <= 0 {
				if b := stripConv(f.b); b.op == OpCall && b.str == "remaining" || b.op == OpLen {
					return true, ""
				}
			}
		}
	}
	switch {
	case s.op == OpLen || s.op == OpCap: // something already in memory
		return true, ""
	case s.op == OpCall && s.str == "cryptonote.TransactionInput.sigCount": // the number of its key offsets, or a byte
		return true, ""
	case s.op == OpSum:
		for _, a := range s.args {
			if ok, w := e.boundedSize(st, a); !ok {
				return false, w
			}
		}
		return true, ""
	}
	return false, s.String()
}

// ---- what may be refused ----------------------------------------------------------------------

type reason func(e *Eng, st *State) bool

func rdOf(t *Term) (kind string, ok bool) {
	t = stripConv(t)
	if t != nil && t.op == OpCall && t.str == "rd" && len(t.args) == 1 && t.args[0].op == OpCall && strings.HasPrefix(t.args[0].str, "r:") {
		return t.args[0].str[2:], true
	}
	return "", false
}

// rds: the values read that the facts of a state mention.
func rds(st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, f := range st.facts.list() {
		for _, t := range []*Term{f.a, f.b} {
			if t == nil {
				continue
			}
			if _, ok := rdOf(t); ok && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}

// endOfData: a read failed.
func endOfData(e *Eng, st *State) bool {
	for f := range st.facts.m {
		if f.kind == "EV" && f.name == "readfail" {
			return true
		}
	}
	return false
}

// tooBig: a number read has more than the given bits.
func tooBig(bits ...uint) reason {
	return func(e *Eng, st *State) bool {
		for _, t := range rds(st) {
			if k, _ := rdOf(t); k != "uv" {
				continue
			}
			for _, b := range bits {
				lim := new(big.Int).Lsh(bigOne, b)
				if lo, _ := e.bounds(st, t, 0); lo != nil && lo.Cmp(lim) == 0 {
					return true
				}
			}
		}
		return false
	}
}

// moreThanLeft: a number read exceeds the bytes left.
func moreThanLeft(e *Eng, st *State) bool {
	for f := range st.facts.m {
		if f.kind == "LE" && f.a != nil && f.b != nil && f.c.Sign() < 0 {
			a := stripConv(f.a)
			if k, _ := rdOf(f.b); k == "uv" && a.op == OpCall && a.str == "remaining" {
				return true
			}
		}
	}
	return false
}

// notIn: a value read is none of the given.
func notIn(kind string, vs ...int64) reason {
	return func(e *Eng, st *State) bool {
		for _, t := range rds(st) {
			if k, _ := rdOf(t); k != kind {
				continue
			}
			none := t.op != OpConv
			for f := range st.facts.m { // a number compared with a counter or a length is no tag
				if f.kind == "LE" && f.a != nil && f.b != nil && (f.a == t || f.b == t) {
					none = false
				}
			}
			if lo, _ := e.bounds(st, t, 0); lo != nil && lo.Cmp(big.NewInt(vs[len(vs)-1]+1)) > 0 {
				continue // refused for being larger than something else
			}
			for _, v := range vs {
				none = none && e.decide(st, e.in.cmpFact(token.EQL, t, e.in.Int(v), true, true)) == no
			}
			if none {
				return true
			}
		}
		return false
	}
}

func (c *Ctx) refusals(rule string, fn *ssa.Function, cfg EngCfg, seeds []Seed, allowed ...reason) {
	cfg.Interval = true
	r := c.run("", fn, cfg, nil, seeds...)
	if r == nil {
		return
	}
	n := 0
	for _, o := range r.failure() {
		ok := false
		for _, a := range allowed {
			ok = ok || a(r.e, o.st)
		}
		if !ok {
			if os.Getenv("KC_DUMP") == rule {
				for _, f := range o.st.facts.list() {
					fmt.Println("     ", f)
				}
			}
			c.ob(rule, fname(fn), o.pos, false, "data is refused for another reason than those of the format")
			return
		}
		n++
	}
	c.counts["refusals"] += n
	c.ob(rule, fname(fn), fn.Pos(), true, "every refusal has a reason of the format")
}

func badSignatures(e *Eng, st *State) bool {
	for f := range st.facts.m {
		if f.kind == "NE" && f.a != nil && f.a.op == OpCall && f.a.str == "cryptonote.TransactionInput.sigCount" {
			a := f.a.args[0]
			for a.op == OpElem || a.op == OpIAddr {
				a = a.args[0]
			}
			n := e.in.Len(a)
			if e.decide(st, e.in.cmpFact(token.LEQ, n, e.in.Int(1), true, true)) == yes {
				return true
			}
		}
	}
	return false
}

// badMiningTag: the extra field does not parse, has no merge mining tag, or one too deep.
func badMiningTag(e *Eng, st *State) bool {
	for f := range st.facts.m {
		for _, t := range []*Term{f.a, f.b} {
			if t == nil {
				continue
			}
			x := stripConv(t)
			switch {
			case x.op == OpExtract && x.args[0].op == OpCall && x.args[0].str == "cryptonote.TxExtraFromBytes" && isErrorType(x.typ):
				if e.nilness(st, x) == no {
					return true
				}
			case x.op == OpField && x.str == "MiningTag":
				if e.nilness(st, x) == yes {
					return true
				}
			case x.op == OpField && x.str == "Depth":
				if e.decide(st, e.in.cmpFact(token.LEQ, e.in.Int(257), x, true, true)) == yes {
					return true
				}
			}
		}
	}
	return false
}

func badPadding(e *Eng, st *State) bool {
	for _, t := range rds(st) {
		if k, _ := rdOf(t); k != "raw1" {
			continue
		}
		// a byte after the tag: its position is a loop value that starts after a tag
		p := t.args[0].args[0]
		if li := e.lvs[p]; li != nil && li.init.op == OpCall && li.init.str == "r:raw1" {
			if e.decide(st, e.in.cmpFact(token.EQL, t, e.in.Int(0), true, true)) == no {
				return true
			}
			if e.decide(st, e.in.cmpFact(token.LEQ, e.in.Int(255), e.loops[li.loop].iter, true, true)) == yes {
				return true
			}
		}
	}
	return false
}

var txReasons = []reason{endOfData, tooBig(8, 32), moreThanLeft, notIn("raw1", 2, 255), notIn("uv", 2), badSignatures}

func (c *Ctx) txRefusals(rule string) {
	c.refusals(rule, c.fn("cryptonote", "Transaction", "Deserialize"), codecCfg(), nil, txReasons...)
}

func (c *Ctx) blockRefusals(rule string) {
	version := func(e *Eng, st *State) bool {
		for f := range st.facts.m {
			for _, t := range []*Term{f.a, f.b} {
				if t == nil {
					continue
				}
				if k, _ := rdOf(t); k != "uv" {
					continue
				}
				none := true
				if lo, _ := e.bounds(st, t, 0); lo != nil && lo.Cmp(big.NewInt(6)) > 0 {
					continue
				}
				for v := int64(1); v <= 5; v++ {
					none = none && e.decide(st, e.in.cmpFact(token.EQL, t, e.in.Int(v), true, true)) == no
				}
				if none {
					return true
				}
			}
		}
		return false
	}
	c.refusals(rule, c.fn("cryptonote", "Block", "Deserialize"), codecCfg(), nil, append([]reason{version, badMiningTag, tooBig(16)}, txReasons...)...)
}

func (c *Ctx) extraRefusals(rule string) {
	c.refusals(rule, c.fn("cryptonote", "", "TxExtraFromBytes"), EngCfg{Streams: true, PathMode: true}, []Seed{c.seedGlobals("cryptonote")},
		endOfData, tooBig(8), notIn("raw1", 0, 1, 2, 3), notIn("uv", 33), badPadding)
}

func (c *Ctx) txCodec() {
	c.writes("prefix-written", "", c.fn("cryptonote", "TransactionPrefix", "serialize"), prefixGrammar)
	c.reads("prefix-read", "", c.fn("cryptonote", "TransactionPrefix", "deserialize"), 1, 0, prefixGrammar)
	c.writes("transaction-written", "", c.fn("cryptonote", "Transaction", "Serialize"), txGrammar())
	c.reads("transaction-read", "", c.fn("cryptonote", "Transaction", "Deserialize"), 1, 0, txGrammar())
	c.sigCounts("signature-counts")
}

// sigCounts: how many signatures belong to an input of each kind.
func (c *Ctx) sigCounts(rule string) {
	for _, x := range []struct{ typ, want string }{{"InputCoinbase", ""}, {"InputKey", "OutputIndexes"}, {"InputMultiSignature", "SignatureCount"}} {
		fn := c.fn("cryptonote", x.typ, "sigCount")
		r := c.run("", fn, codecCfg(), nil)
		if r == nil {
			continue
		}
		for _, o := range r.outs {
			ok := false
			if x.want == "" {
				ok = isZeroInt(o.res[0])
			} else {
				f, _ := r.e.sel(r.args[0], fn.Params[0].Type(), x.want)
				ok = f != nil && (stripConv(o.res[0]) == f || stripConv(o.res[0]) == r.e.in.Len(f))
			}
			c.ob(rule, fname(fn), o.pos, ok, fmt.Sprintf("the number of signatures is %s", o.res[0]))
		}
	}
}

func (c *Ctx) blockCodec() {
	ser := c.fn("cryptonote", "Block", "Serialize")
	for v := int64(1); v <= 5; v++ {
		c.writes("block-written", fmt.Sprintf("major version %d", v), ser, blockGrammar(v), seedByteEq(0, "MajorVersion", v))
	}
	c.readsBy("block-read", "", c.fn("cryptonote", "Block", "Deserialize"), 1, 0, blockGrammars, func(e *Eng, args []*Term, st *State) {
		for _, n := range []string{"Timestamp", "Nonce"} { // decoded into a new block
			t, _ := e.sel(args[0], args[0].typ, n)
			e.assumeCmp(st, token.EQL, t, 0)
		}
	})
}

func (c *Ctx) wholeBlobs() {
	tb := c.fn("p2p", "RawBlock", "ToBlock")
	if tb != nil {
		c.readsFrom("raw-block", "", tb, -1, -1, func(m *gm, st *State, args []*Term) *Term {
			f, _ := m.field(st, gval{args[0], tb.Params[0].Type()}, "Block")
			return m.load(st, f)
		}, blockGrammars)
	}
	c.rawTransactions("raw-transactions", c.fn("cryptonote", "BlockChain", "deserializeTransactions"), 2)
}

func (c *Ctx) txHashes() {
	c.hashes("transaction-hash", "", c.fn("cryptonote", "Transaction", "Hash"), txGrammar())
	c.hashes("prefix-hash", "", c.fn("cryptonote", "TransactionPrefix", "Hash"), prefixGrammar)
	c.hashes("base-transaction-hash", "", c.fn("cryptonote", "BaseTransaction", "Hash"), prefixGrammar)
}

func (c *Ctx) blockHashes() {
	for v := int64(1); v <= 5; v++ {
		l := fmt.Sprintf("major version %d", v)
		s := seedByteEq(0, "MajorVersion", v)
		c.hashes("block-hash", l, c.fn("cryptonote", "Block", "Hash"), identityGrammar(v), s)
		c.writesCfg("hashing-bytes", l, c.fn("cryptonote", "Block", "HashingBytes"), hashCfg(), hashingGrammar(v), s)
	}
}

// hashCaches: the cached hashes are set only by the functions that compute them.
func (c *Ctx) hashCaches(rule string) {
	ok := map[string]bool{}
	for f := range c.fns {
		ok[f] = true
	}
	n := 0
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, isStore := in.(*ssa.Store)
				if !isStore {
					continue
				}
				fa, isFA := s.Addr.(*ssa.FieldAddr)
				if !isFA {
					continue
				}
				st, isS := derefType(fa.X.Type()).Underlying().(*types.Struct)
				nm, _ := derefType(fa.X.Type()).(*types.Named)
				if !isS || nm == nil || nm.Obj().Pkg() == nil || nm.Obj().Pkg().Path() != pkgPath("cryptonote") || st.Field(fa.Field).Name() != "hash" {
					continue
				}
				n++
				k, isC := s.Val.(*ssa.Const)
				c.ob(rule, fname(f), s.Pos(), ok[fname(f)] || isC && k.Value == nil, "the cached hash of "+nm.Obj().Name()+" is set outside the functions that compute it")
			}
		}
	}
	c.counts["stores to cached hashes"] += n
}

func init() {
	A := []string{"golang.org/x/tools represents the program faithfully in SSA form", "encoding/binary, bytes and io behave as documented"}
	register("S01", "", "", A, func(c *Ctx) { c.txCodec(); c.txRefusals("valid-accepted") })
	register("S02", "", "", A, func(c *Ctx) { c.blockCodec(); c.txCodec(); c.blockRefusals("valid-accepted") })
	register("S03", "", "", A, func(c *Ctx) {
		c.wholeBlobs()
		c.blockCodec()
		c.extraField("extra-fields", c.fn("cryptonote", "", "TxExtraFromBytes"))
	})
	register("S04", "", "", A, func(c *Ctx) {
		c.boundedAllocations("bounded-allocations", c.fn("cryptonote", "Block", "Deserialize"))
		c.boundedAllocations("bounded-allocations", c.fn("cryptonote", "BlockChain", "deserializeTransactions"))
		c.boundedAllocations("bounded-allocations", c.fn("cryptonote", "", "TxExtraFromBytes"))
	})
	register("S05", "", "", A, func(c *Ctx) { c.txHashes(); c.blockHashes(); c.hashCaches("hash-caches") })
	register("S06", "", "", A, func(c *Ctx) {
		c.extraField("extra-fields", c.fn("cryptonote", "", "TxExtraFromBytes"))
		c.extraRefusals("valid-accepted")
	})
}
