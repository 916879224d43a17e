package main

import (
	"go/token"
	"go/types"
	"strings"
)

// Rules about addresses: text to keys and back.

// span: the part base[lo:hi] a value stands for.
func (e *Eng) span(t *Term) (base, lo, hi *Term) {
	t = stripConv(unIface(t))
	switch {
	case t.op == OpCall && t.str == "bytesof" && len(t.args) == 1:
		if ops, ok := e.wops(t.args[0], nil, 0); ok && len(ops) == 1 && (ops[0].kind == "bytes" || strings.HasPrefix(ops[0].kind, "raw") && !isInteger(ops[0].val.typ)) {
			return e.span(ops[0].val)
		}
	case t.op == OpCall && t.str == "copied" && len(t.args) == 3 && isZeroInt(t.args[1]):
		b, l, h := e.span(t.args[0])
		if a, ok := arrayOf(t.typ); ok {
			if n, ok := t.args[2].intConst(); ok && n.Int64() == a.Len() {
				return b, l, h
			}
		}
	case t.op == OpCall && t.str == "copyof" && len(t.args) == 1:
		b, l, h := e.span(t.args[0])
		if a, ok := arrayOf(t.typ); ok {
			if n, ok := e.in.Sub(h, l).intConst(); ok && n.Int64() == a.Len() {
				return b, l, h
			}
		}
	case t.op == OpSlice && len(t.args) >= 3:
		b, l, h := e.span(t.args[0])
		lo, hi := l, h
		if !t.args[1].isNil() {
			lo = e.in.Add(l, t.args[1])
		}
		if !t.args[2].isNil() {
			hi = e.in.Add(l, t.args[2])
		}
		return b, lo, hi
	}
	return t, e.in.Int(0), e.in.Len(t)
}

func (e *Eng) equ(a, b *Term) *Fact { return e.in.cmpFact(token.EQL, a, b, true, true) }
func (e *Eng) leq(a, b *Term) *Fact { return e.in.cmpFact(token.LEQ, a, b, true, true) }

func walkTerm(t *Term, f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, a := range t.args {
		walkTerm(a, f)
	}
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := derefType(t).Underlying().(*types.Array)
	return a, ok
}

func (c *Ctx) addressRun(typ, name string, params ...string) *Run {
	fn := c.fn("cryptonote", typ, name)
	if fn == nil {
		return nil
	}
	return c.run("", fn, cryptoCfg(true, "base58.Decode", "base58.Encode", "crypto.Keccak", "crypto.PublicKey.Check", "crypto.EllipticCurvePoint.Check"), params, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
}

func (c *Ctx) addressRules() {
	if r := c.addressRun("Address", "FromString", "a", "s"); r != nil {
		n := 0
		for _, o := range r.success() {
			n++
			r.addressRead(o)
		}
		c.need("accepting paths of FromString", n, 1)
		r.addressRefused()
		r.unchanged(r.failure(), "refused-address-unchanged", 0, "an address whose text is refused stays as it was")
	}
	if r := c.addressRun("Address", "Base58", "a"); r != nil {
		r.must("address-text", "a.base58 != \"\" && result(0, a.base58) || result(0, base58.Encode(cat(uv(a.Tag), a.SpendPublicKey, a.ViewPublicKey, v_k))) && now(a.base58, base58.Encode(cat(uv(a.Tag), a.SpendPublicKey, a.ViewPublicKey, v_k)))", "the text is the one kept or the encoding of tag, both keys and a checksum")
		for _, o := range r.outs {
			if o.panicked {
				continue
			}
			b, ok := r.pm.HoldsB(o.st, "val(v_r, base58.Encode(cat(uv(a.Tag), a.SpendPublicKey, a.ViewPublicKey, v_k)))", bmap{"v_r": r.e.view(o.st, o.res[0])})
			if !ok {
				continue
			}
			base, lo, hi := r.e.span(b["v_k"])
			k, is := keccakOf(base)
			l, ok1 := lo.intConst()
			h, ok2 := hi.intConst()
			ok = is && ok1 && ok2 && l.Sign() == 0 && h.Int64() == 4 && r.pm.term(r.pm.parse("cat(uv(a.Tag), a.SpendPublicKey, a.ViewPublicKey)"), r.e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{k}}), bmap{}, func(bmap) bool { return true })
			c.ob("address-checksum", fname(r.fn), o.pos, ok, "the checksum is the first four bytes of the hash of tag and keys")
		}
	}
	if fn := c.fn("cryptonote", "", "NewAddress"); fn != nil {
		if r := c.run("", fn, EngCfg{Fields: true}, []string{"tag", "spend", "view"}); r != nil {
			r.must("new-address", "result(0, Address{Tag: tag, SpendPublicKey: spend, ViewPublicKey: view, base58: \"\"})", "an address holds the given tag and keys, each in its place, and no text yet")
		}
	}
}

// parts of the decoded text on a path
type addrParts struct {
	e         *Eng
	st        *State
	d         *Term // decoded bytes
	end       *Term // where the checksum starts
	u         *Term // the varint read of the tag
	read, tag *Term
}

func (r *Run) addrParts(st *State, opt bool) *addrParts {
	e := r.e
	p := &addrParts{e: e, st: st}
	for _, f := range st.facts.list() {
		for _, t := range []*Term{f.a, f.b} {
			walkTerm(t, func(x *Term) {
				if x.op == OpCall && x.str == "base58.Decode" && len(x.args) == 1 && x.args[0] == r.pm.params["s"] && p.d == nil {
					p.d = x
				}
				if x.op == OpCall && strings.HasPrefix(x.str, "binary.Uvarint") && p.u == nil {
					p.u = x
				}
			})
		}
	}
	if p.d == nil {
		return nil
	}
	call := p.d
	sig := types.NewSlice(types.Typ[types.Byte])
	p.d = e.in.mk(Term{op: OpExtract, str: "0", args: []*Term{call}, typ: sig})
	p.end = e.in.Sub(e.in.Len(p.d), e.in.Int(4))
	if p.u != nil {
		p.tag = e.in.mk(Term{op: OpExtract, str: "0", args: []*Term{p.u}, typ: types.Typ[types.Uint64]})
		p.read = e.in.mk(Term{op: OpExtract, str: "1", args: []*Term{p.u}, typ: types.Typ[types.Int]})
	}
	return p
}

// same: equal numbers on this path.
func (p *addrParts) same(a, b *Term) bool {
	return a == b || p.e.decide(p.st, p.e.equ(a, b)) == yes || p.e.decide(p.st, p.e.equ(p.e.in.Sub(a, b), p.e.in.Int(0))) == yes
}

// part: t is decoded[lo:hi].
func (p *addrParts) part(t, lo, hi *Term) bool {
	b, l, h := p.e.span(t)
	return b == p.d && p.same(l, lo) && p.same(h, hi)
}

// checksum: t is the first four bytes of the hash of everything before the checksum.
func (p *addrParts) hashed(t *Term) bool {
	b, l, h := p.e.span(t)
	k, ok := keccakOf(b)
	return ok && p.same(l, p.e.in.Int(0)) && p.same(h, p.e.in.Int(4)) && p.part(p.e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{k}}), p.e.in.Int(0), p.end)
}

func (p *addrParts) compared(a, b *Term) bool {
	return p.part(a, p.end, p.e.in.Len(p.d)) && p.hashed(b) || p.part(b, p.end, p.e.in.Len(p.d)) && p.hashed(a)
}

// checksumFact: the fact compares the checksum; equal: with this result.
func (p *addrParts) checksumFact(f *Fact) (is, equal bool) {
	switch f.kind {
	case "EQ", "NE":
		if f.a != nil && f.b != nil && p.compared(f.a, f.b) {
			return true, f.kind == "EQ"
		}
	}
	if (f.kind == "T" || f.kind == "F") && f.a.op == OpCall && f.a.str == "bytes.Equal" && p.compared(f.a.args[0], f.a.args[1]) {
		return true, f.kind == "T"
	}
	return false, false
}

func (p *addrParts) tagRead() bool {
	if p.u == nil {
		return false
	}
	a := p.u.args[0]
	return p.part(a, p.e.in.Int(0), p.end) || p.part(a, p.e.in.Int(0), p.e.in.Len(p.d))
}

func (r *Run) addressRead(o Out) {
	e, c, con := r.e, r.c, fname(r.fn)
	bad := func(rule, s string) { dumpFacts(rule, o.st, nil); c.ob(rule, con, o.pos, false, s) }
	p := r.addrParts(o.st, false)
	if p == nil || !r.pm.Holds(o.st, "r1(base58.Decode(s)) == nil", nil) {
		bad("address-text-decoded", "accepted although the text was not decoded")
		return
	}
	sum := false
	for _, f := range o.st.facts.list() {
		if is, eq := p.checksumFact(f); is && eq {
			sum = true
		}
	}
	if !sum {
		bad("address-checksum-compared", "accepted without comparing the last four bytes with the hash of all bytes before them")
		return
	}
	if !p.tagRead() || e.decide(o.st, e.leq(e.in.Int(1), p.read)) != yes {
		bad("address-tag-read", "accepted without reading the tag as a varint from the start")
		return
	}
	if !p.same(e.in.Sub(p.end, p.read), e.in.Int(64)) {
		bad("address-length", "accepted although tag and two keys are not all there is before the checksum")
		return
	}
	last := e.in.Elem(p.d, e.in.Sub(p.read, e.in.Int(1)), types.Typ[types.Byte])
	if e.decide(o.st, e.equ(p.read, e.in.Int(1))) != yes && e.decide(o.st, e.leq(p.read, e.in.Int(1))) != yes && e.decide(o.st, e.equ(last, e.in.Int(0))) != no {
		bad("address-tag-minimal", "accepted although the tag may be padded: it would encode to another text")
		return
	}
	for i, k := range []string{"SpendPublicKey", "ViewPublicKey"} {
		lo := e.in.Add(p.read, e.in.Int(int64(32*i)))
		hi := e.in.Add(lo, e.in.Int(32))
		v := r.fieldNow(o.st, "a", k)
		if v == nil || !p.part(v, lo, hi) {
			bad("address-keys", k+" is not read from its place")
			return
		}
		if !r.checked(o.st, p, lo, hi, true) {
			bad("address-keys-on-curve", "accepted although "+k+" was not checked to be a point of the curve")
			return
		}
	}
	if v := r.fieldNow(o.st, "a", "Tag"); v != p.tag {
		bad("address-tag", "the tag is not the one read")
		return
	}
	if v := r.fieldNow(o.st, "a", "base58"); v == nil || v != r.pm.params["s"] && !v.isEmptyString() {
		bad("address-kept-text", "the text kept with the address is another one")
		return
	}
	c.ob("address-read", con, o.pos, true, "decoded, checksum compared, tag minimal, both keys in their places and on the curve, old text replaced")
}

func (t *Term) isEmptyString() bool { return t.op == OpConst && t.String() == `""` }

// checked: on this path decoded[lo:hi] was (not) found to be a point.
func (r *Run) checked(st *State, p *addrParts, lo, hi *Term, want bool) bool {
	for _, f := range st.facts.list() {
		t := f.a
		if f.kind != "T" && f.kind != "F" || t.op != OpCall || !strings.HasSuffix(t.str, ".Check") || len(t.args) != 1 {
			continue
		}
		if (f.kind == "T") == want && p.part(t.args[0], lo, hi) {
			return true
		}
	}
	return false
}

// fieldNow: what the field of the structure the parameter points to holds.
func (r *Run) fieldNow(st *State, param, name string) *Term {
	p := r.pm.params[param]
	f := r.e.fieldAddr(p, derefType(p.typ), name)
	if f == nil {
		return nil
	}
	return r.e.view(st, r.e.load(st, f))
}

func (r *Run) addressRefused() {
	e, con := r.e, fname(r.fn)
	for _, o := range r.failure() {
		if o.panicked {
			continue
		}
		if r.pm.Holds(o.st, "r1(base58.Decode(s)) != nil", nil) || r.pm.Holds(o.st, "len(r0(base58.Decode(s))) <= 4", nil) {
			continue
		}
		p := r.addrParts(o.st, true)
		ok := false
		if p != nil {
			for _, f := range o.st.facts.list() {
				if is, eq := p.checksumFact(f); is && !eq {
					ok = true
				}
			}
		}
		if p != nil && p.tagRead() {
			left := e.in.Sub(p.end, p.read)
			last := e.in.Elem(p.d, e.in.Sub(p.read, e.in.Int(1)), types.Typ[types.Byte])
			k1, k2 := e.in.Add(p.read, e.in.Int(32)), e.in.Add(p.read, e.in.Int(64))
			ok = ok || e.decide(o.st, e.leq(p.read, e.in.Int(0))) == yes ||
				e.decide(o.st, e.leq(e.in.Add(p.end, e.in.Int(1)), p.read)) == yes ||
				e.decide(o.st, e.equ(left, e.in.Int(64))) == no ||
				e.decide(o.st, e.equ(last, e.in.Int(0))) == yes && e.decide(o.st, e.leq(e.in.Int(2), p.read)) == yes ||
				r.checked(o.st, p, p.read, k1, false) || r.checked(o.st, p, k1, k2, false)
		}
		if !ok {
			dumpFacts("address-refused", o.st, nil)
			r.c.ob("address-refused", con, o.pos, false, "refused although text, checksum, tag, length and keys may all be right")
			return
		}
	}
	r.c.ob("address-refused", con, r.fn.Pos(), true, "refused only for one of the stated reasons")
}

func init() {
	register("A01", "Addresses", "", nil, func(c *Ctx) { c.addressRules() })
}
