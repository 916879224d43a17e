package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Bit provenance: an integer is a vector of bits, each a constant or a numbered bit of an atom, where an
// atom is a byte of an input stream or a number nothing is known about. Shifts, masks, disjoint sums and
// conversions move bits around; everything else is an atom.

type bit struct {
	c    int    // 0 or 1 when atom is ""
	atom string // identity of the atom
	k    int
}

func (b bit) String() string {
	if b.atom == "" {
		return fmt.Sprint(b.c)
	}
	return fmt.Sprintf("%s.%d", b.atom, b.k)
}

func zeros(n int) []bit { return make([]bit, n) }

func constBits(c *big.Int, n int) []bit {
	r := zeros(n)
	m := new(big.Int).Set(c)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(bigOne, uint(n)))
	}
	for i := range r {
		r[i].c = int(m.Bit(i))
	}
	return r
}

func fit(b []bit, n int) []bit {
	if len(b) >= n {
		return b[:n]
	}
	return append(append([]bit{}, b...), zeros(n-len(b))...)
}

func atomBits(a string, n int) []bit {
	r := make([]bit, n)
	for i := range r {
		r[i] = bit{atom: a, k: i}
	}
	return r
}

// byteName: the atom of the byte with this number in a value read from a stream.
func (e *Eng) byteName(rd *Term, i int64) (string, bool) {
	if rd.op != OpCall || rd.str != "rd" || rd.args[0].op != OpCall || !strings.HasPrefix(rd.args[0].str, "r:raw") {
		return "", false
	}
	p, ok := streamPos(rd.args[0].args[0])
	if !ok || i >= rawLen(rd.args[0].str[2:]) {
		return "", false
	}
	return fmt.Sprintf("byte%d", p+i), true
}

// bits evaluates an integer term; the width is that of its type.
func (e *Eng) bits(st *State, t *Term) []bit { return e.bitsW(st, t, 0) }

func (e *Eng) bitsW(st *State, t *Term, w int) []bit {
	if t.typ != nil {
		if x := int(scalarWidth(t.typ)) * 8; x > 0 {
			w = x
		} else if b, ok := t.typ.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
			w = 64
		}
	}
	if w == 0 {
		w = 64
	}
	if c, ok := t.intConst(); ok {
		return constBits(c, w)
	}
	atom := func() []bit {
		r := atomBits("#"+t.String(), w)
		if lo, hi := e.bounds(st, t, 0); lo != nil && hi != nil && lo.Sign() >= 0 {
			for i := hi.BitLen(); i < w; i++ {
				r[i] = bit{}
			}
		}
		return r
	}
	unsigned := func(x *Term) bool {
		if x.typ == nil {
			return true
		}
		b, ok := x.typ.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
		lo, _ := e.bounds(st, x, 0)
		return lo != nil && lo.Sign() >= 0
	}
	switch t.op {
	case OpConv:
		in := e.bits(st, t.args[0])
		if len(in) < w && !unsigned(t.args[0]) {
			return atom()
		}
		return fit(in, w)
	case OpBin:
		if len(t.args) != 2 {
			return atom()
		}
		op := strings.TrimSuffix(t.str, "i")
		x := t.args[0]
		c, isC := t.args[1].intConst()
		if op == "*" && !isC {
			if c, isC = x.intConst(); isC {
				x = t.args[1]
			}
		}
		if op == "*" || op == "/" {
			if !isC || c.Sign() <= 0 || new(big.Int).And(c, new(big.Int).Sub(c, bigOne)).Sign() != 0 {
				return atom()
			}
			c = big.NewInt(int64(c.BitLen() - 1))
			op = map[string]string{"*": "<<", "/": ">>"}[op]
		}
		switch op {
		case "<<", ">>":
			if !isC || !c.IsInt64() || c.Int64() > 64 || c.Sign() < 0 || op == ">>" && !unsigned(x) {
				return atom()
			}
			k := int(c.Int64())
			b := fit(e.bitsW(st, x, w), w)
			r := zeros(w)
			for i := range r {
				if op == "<<" && i >= k {
					r[i] = b[i-k]
				} else if op == ">>" && i+k < w {
					r[i] = b[i+k]
				}
			}
			return r
		case "&", "|", "^", "&^":
			a, b := fit(e.bitsW(st, x, w), w), fit(e.bitsW(st, t.args[1], w), w)
			r := zeros(w)
			for i := range r {
				p, q := a[i], b[i]
				if op == "&^" {
					if q.atom != "" {
						return atom()
					}
					q.c = 1 - q.c
				}
				switch {
				case op == "&" || op == "&^":
					switch {
					case p.atom == "" && p.c == 0 || q.atom == "" && q.c == 0:
					case p.atom == "":
						r[i] = q
					case q.atom == "" || p == q:
						r[i] = p
					default:
						return atom()
					}
				case p.atom == "" && p.c == 0:
					r[i] = q
				case q.atom == "" && q.c == 0:
					r[i] = p
				case p.atom == "" && q.atom == "":
					r[i].c = 1
					if op == "^" {
						r[i].c = 0
					}
				case op == "|" && (p.atom == "" || p == q):
					r[i] = p
				case op == "|" && q.atom == "":
					r[i] = q
				default:
					return atom()
				}
			}
			return r
		}
		return atom()
	case OpSum:
		// a sum without carries
		ts, c := e.in.split(t)
		r := constBits(c, w)
		for _, x := range ts {
			b := fit(e.bitsW(st, x, w), w)
			for i := range r {
				switch {
				case b[i] == bit{}:
				case r[i] == bit{}:
					r[i] = b[i]
				default:
					return atom()
				}
			}
		}
		return r
	case OpElem:
		if i, ok := t.args[1].intConst(); ok {
			if n, ok := e.byteName(t.args[0], i.Int64()); ok {
				return fit(atomBits(n, 8), w)
			}
		}
	case OpCall:
		switch {
		case t.str == "byteat":
			if k, ok := t.args[1].intConst(); ok {
				b := e.bits(st, t.args[0])
				if i := int(k.Int64()) * 8; i+8 <= len(b) {
					return fit(b[i:i+8], w)
				}
			}
		case strings.HasPrefix(t.str, "getraw"):
			off, ok := t.args[1].intConst()
			if !ok {
				break
			}
			n := int(rawLen(t.str[3:]))
			var by [][]bit
			for i := 0; i < n; i++ {
				b, ok := e.contentByte(st, t.args[0], int(off.Int64())+i)
				if !ok {
					return atom()
				}
				by = append(by, b)
			}
			return fit(joinBytes(by, strings.HasSuffix(t.str, "be")), w)
		case t.str == "rd" && t.args[0].op == OpCall && strings.HasPrefix(t.args[0].str, "r:raw"):
			k := t.args[0].str[2:]
			n := rawLen(k)
			if n > 8 {
				break
			}
			var by [][]bit
			for i := int64(0); i < n; i++ {
				nm, ok := e.byteName(t, i)
				if !ok {
					return atom()
				}
				by = append(by, atomBits(nm, 8))
			}
			return fit(joinBytes(by, strings.HasSuffix(k, "be")), w)
		}
	}
	return atom()
}

func joinBytes(by [][]bit, be bool) (r []bit) {
	for i := range by {
		if be {
			r = append(r, by[len(by)-1-i]...)
		} else {
			r = append(r, by[i]...)
		}
	}
	return
}

// contentByte: the bits of one byte of a byte sequence.
func (e *Eng) contentByte(st *State, v *Term, i int) ([]bit, bool) {
	if n, ok := e.byteName(v, int64(i)); ok {
		return atomBits(n, 8), true
	}
	if v.op == OpCall && v.str == "byteseq" && i < len(v.args) {
		return fit(e.bits(st, v.args[i]), 8), true
	}
	if v.op != OpCall || v.str != "bytesof" {
		return nil, false
	}
	ops, ok := e.wops(v.args[0], nil, 0)
	if !ok {
		return nil, false
	}
	bs, ok := e.contentBits(st, ops)
	if !ok || i >= len(bs) {
		return nil, false
	}
	return bs[i], true
}

// contentBits: the bytes of a content as bit vectors.
func (e *Eng) contentBits(st *State, ops []wop) (r [][]bit, ok bool) {
	bs, ok := e.bytesOfOps(ops)
	if !ok {
		return nil, false
	}
	for _, b := range bs {
		switch {
		case b.val == nil:
			r = append(r, constBits(big.NewInt(b.c), 8))
		case b.blob:
			n := int64(0)
			if b.val.op == OpCall && b.val.str == "rd" && b.val.args[0].op == OpCall && strings.HasPrefix(b.val.args[0].str, "r:raw") {
				n = rawLen(b.val.args[0].str[2:])
			}
			if n == 0 {
				return nil, false
			}
			for i := int64(0); i < n; i++ {
				nm, ok := e.byteName(b.val, i)
				if !ok {
					return nil, false
				}
				r = append(r, atomBits(nm, 8))
			}
		default:
			x := e.bits(st, b.val)
			x = fit(x, (b.idx+1)*8)
			r = append(r, x[b.idx*8:b.idx*8+8])
		}
	}
	return r, true
}

func eqBits(a, b []bit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
