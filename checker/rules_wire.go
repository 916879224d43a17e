package main

import (
	"fmt"
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the framing of messages between nodes.

func levinCfg() EngCfg {
	return EngCfg{
		Streams: true, PathMode: true, TrackIdx: true,
		Opaque: func(f *ssa.Function) bool { return fname(f) == "binary.Marshal" || fname(f) == "binary.Unmarshal" },
		Impure: func(n string) bool { return true },
		Track:  func(n string) bool { return n == "net.Conn.Write" },
	}
}

// wbyte is one byte of a content: a constant, byte number idx of a number, or (blob) a whole byte sequence.
type wbyte struct {
	c    int64 // constant, when val is nil
	val  *Term
	idx  int
	blob bool
}

func (b wbyte) String() string {
	if b.val == nil {
		return fmt.Sprintf("%#x", b.c)
	}
	if b.blob {
		return "bytes of " + b.val.String()
	}
	return fmt.Sprintf("byte %d of %s", b.idx, b.val)
}

// bytesOfOps expands the operations a content was built from into single bytes.
func (e *Eng) bytesOfOps(ops []wop) ([]wbyte, bool) {
	var r []wbyte
	for _, o := range ops {
		if o.kind == "bytes" {
			if n := o.val; n.op == OpCall && n.str == "none" {
				return nil, false
			}
			r = append(r, wbyte{val: o.val, blob: true})
			continue
		}
		if !strings.HasPrefix(o.kind, "raw") {
			return nil, false
		}
		n := int(rawLen(o.kind))
		if n < 1 || n > 8 || n > 1 && !strings.HasSuffix(o.kind, "le") && !strings.HasSuffix(o.kind, "be") {
			return nil, false
		}
		be := strings.HasSuffix(o.kind, "be")
		v := o.val
		for v.op == OpConv && scalarWidth(v.args[0].typ) >= int64(n) {
			v = v.args[0]
		}
		c, isC := v.intConst()
		if tr, ok := v.isBoolConst(); ok {
			c, isC = new(big.Int), true
			if tr {
				c.SetInt64(1)
			}
		}
		for i := 0; i < n; i++ {
			k := i
			if be {
				k = n - 1 - i
			}
			if isC {
				m := new(big.Int).And(new(big.Int).Rsh(c, uint(8*k)), big.NewInt(255))
				r = append(r, wbyte{c: m.Int64()})
			} else {
				r = append(r, wbyte{val: v, idx: k})
			}
		}
	}
	return r, true
}

func leConst(v uint64, n int) (r []wbyte) {
	for i := 0; i < n; i++ {
		r = append(r, wbyte{c: int64(v >> uint(8*i) & 255)})
	}
	return
}

func leOf(t *Term, n int) (r []wbyte) {
	for i := 0; i < n; i++ {
		r = append(r, wbyte{val: t, idx: i})
	}
	return
}

const levinSignature = 0x0101010101012101

// frameWritten: every message handed to the connection is one complete frame.
func (c *Ctx) frameWritten(rule, method string, names []string, flags uint64, answer bool) {
	fn := c.fn("p2p", "LevinProtocol", method)
	r := c.run("", fn, levinCfg(), names)
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	n := 0
	for _, o := range e.obs {
		if o.name != "net.Conn.Write" {
			continue
		}
		n++
		ops, ok := e.wops(e.bytesOf(o.st, o.args[1]), nil, 0)
		var got []wbyte
		if ok {
			got, ok = e.bytesOfOps(ops)
		}
		if !ok || len(got) == 0 || !got[len(got)-1].blob {
			c.ob(rule, con, o.pos, false, "the bytes sent cannot be determined: "+opsString(ops))
			return
		}
		body := got[len(got)-1].val
		want := leConst(levinSignature, 8)
		want = append(want, leOf(e.in.Len(body), 8)...)
		if answer {
			want = append(want, wbyte{c: 1})
		} else {
			want = append(want, wbyte{c: 0})
		}
		want = append(want, leOf(r.args[1], 4)...)
		if method == "Reply" {
			want = append(want, leOf(r.args[3], 4)...)
		} else {
			want = append(want, leConst(0, 4)...)
		}
		want = append(want, leConst(flags, 4)...)
		want = append(want, leConst(1, 4)...)
		parts := []string{"signature", "signature", "size", "size", "answer flag", "command", "return code", "flags", "version"}
		bounds := []int{4, 8, 12, 16, 17, 21, 25, 29, 33}
		if len(got) != 34 {
			c.ob(rule, con, o.pos, false, fmt.Sprintf("the message has a head of %d bytes and its parts: %v", len(got)-1, got))
			return
		}
		for i := range want {
			if got[i] != want[i] {
				k := 0
				for bounds[k] <= i {
					k++
				}
				c.ob(rule, con, o.pos, false, fmt.Sprintf("byte %d of the head (%s) is %v, the format has %v", i, parts[k], got[i], want[i]))
				return
			}
		}
		b := bmap{"body": body}
		if !r.pm.Holds(o.st, "val(body, r0(Marshal("+names[2]+"))) && r1(Marshal("+names[2]+")) == nil", b) {
			c.ob(rule, con, o.pos, false, "the payload sent is not the encoding of the message: "+body.String())
			return
		}
		if !r.pm.Holds(o.st, "val(conn, p.Conn)", bmap{"conn": o.args[0]}) {
			c.ob(rule, con, o.pos, false, "the message is not sent on the connection of the peer")
			return
		}
	}
	c.counts["frames written"] += n
	if n == 0 {
		c.ob(rule, con, fn.Pos(), false, "no message is sent")
		return
	}
	c.ob(rule, con, fn.Pos(), true, "frame")
	r.must(rule+"-reported", "r1(net.Conn.Write(p.Conn, _)) == nil", "success is reported only if the connection took the message")
}

// wireRef: where in the stream of the connection a number lies.
type wireRef struct {
	off, n int64
	be     bool
}

func streamPos(node *Term) (int64, bool) {
	if node.op != OpCall {
		return 0, false
	}
	if node.str == "r:start" {
		return 0, true
	}
	if !strings.HasPrefix(node.str, "r:raw") {
		return 0, false
	}
	p, ok := streamPos(node.args[0])
	return p + rawLen(node.str[2:]), ok
}

func (e *Eng) wireRef(t *Term) (w wireRef, ok bool) {
	// a conversion that cuts bits off denotes another number
	for t != nil && t.op == OpConv && scalarWidth(t.typ) >= scalarWidth(t.args[0].typ) && scalarWidth(t.args[0].typ) > 0 {
		t = t.args[0]
	}
	if t == nil {
		return
	}
	readAt := func(rd *Term) (int64, bool) {
		if rd.op != OpCall || rd.str != "rd" || rd.args[0].op != OpCall || !strings.HasPrefix(rd.args[0].str, "r:raw") {
			return 0, false
		}
		return streamPos(rd.args[0].args[0])
	}
	if t.op == OpCall && strings.HasPrefix(t.str, "getraw") {
		p, ok1 := readAt(t.args[0])
		o, ok2 := t.args[1].intConst()
		if ok1 && ok2 {
			return wireRef{p + o.Int64(), rawLen(t.str[3:]), strings.HasSuffix(t.str, "be")}, true
		}
		return
	}
	if t.op == OpElem {
		p, ok1 := readAt(t.args[0])
		o, ok2 := t.args[1].intConst()
		if ok1 && ok2 {
			return wireRef{p + o.Int64(), 1, false}, true
		}
		return
	}
	if p, ok1 := readAt(t); ok1 {
		k := t.args[0].str[2:]
		if n := rawLen(k); n == 1 || strings.HasSuffix(k, "le") || strings.HasSuffix(k, "be") {
			return wireRef{p, n, strings.HasSuffix(k, "be")}, true
		}
	}
	return
}

// factOn: a fact of the given kind about the number at the given place.
func (e *Eng) factOn(st *State, kind string, w wireRef, c *big.Int) bool {
	for f := range st.facts.m {
		if f.kind == kind && f.b == nil && f.a != nil && len(f.loops) == 0 {
			if g, ok := e.wireRef(f.a); ok && g == w {
				if kind == "LE" && f.c.Cmp(c) <= 0 || kind != "LE" && f.c.Cmp(c) == 0 {
					return true
				}
			}
		}
	}
	return false
}

// above: the number at w is known to be at least c.
func (e *Eng) above(st *State, w wireRef, c *big.Int) bool {
	for f := range st.facts.m {
		if f.kind == "LE" && f.a == nil && f.b != nil {
			if g, ok := e.wireRef(f.b); ok && g == w && new(big.Int).Neg(f.c).Cmp(c) >= 0 {
				return true
			}
		}
	}
	return false
}

var (
	wSig   = wireRef{0, 8, false}
	wSize  = wireRef{8, 8, false}
	wRet   = wireRef{16, 1, false}
	wCmd   = wireRef{17, 4, false}
	wFlags = wireRef{25, 4, false}
)

func (c *Ctx) frameRead() {
	fn := c.fn("p2p", "LevinProtocol", "read")
	r := c.run("", fn, levinCfg(), []string{"p"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	sig := new(big.Int).SetUint64(levinSignature)
	lim := big.NewInt(100000000)
	fail := map[string]token.Pos{}
	bad := func(rule, why string, pos token.Pos) {
		if _, ok := fail[rule]; !ok {
			fail[rule] = pos
			c.ob(rule, con, pos, false, why)
		}
	}
	succ := r.success()
	if len(succ) == 0 {
		bad("read-fields", "no message is ever read", fn.Pos())
	}
	for _, o := range succ {
		if !e.factOn(o.st, "EQ", wSig, sig) {
			bad("read-signature", "a frame is accepted whose signature was not compared", o.pos)
		}
		if !e.factOn(o.st, "LE", wSize, lim) {
			bad("read-size-limit", "a frame is accepted whose size was not compared with the maximum", o.pos)
		}
		field := func(n string) *Term {
			at := e.fieldAddr(o.res[0], fn.Signature.Results().At(0).Type(), n)
			if at == nil {
				return nil
			}
			return e.load(o.st, at)
		}
		if t := field("Command"); t == nil || !e.isRef(t, wCmd) {
			bad("read-fields", fmt.Sprintf("the command is taken from %v", t), o.pos)
		}
		if t := field("IsNotify"); t == nil || !e.boolIs(o.st, t, wRet, 0xff, false) {
			bad("read-fields", fmt.Sprintf("the notification flag is taken from %v", t), o.pos)
		}
		if t := field("IsResponse"); t == nil || !e.boolIs(o.st, t, wFlags, 2, true) {
			bad("read-fields", fmt.Sprintf("the response flag is taken from %v", t), o.pos)
		}
		t := field("Payload")
		ok := false
		if t != nil {
			ops, okw := e.wops(e.bytesOf(o.st, t), nil, 0)
			if okw && len(ops) == 1 && ops[0].kind == "bytes" {
				v := ops[0].val
				if v.op == OpCall && v.str == "rd" && v.args[0].op == OpCall && v.args[0].str == "r:var" && len(v.args[0].args) == 2 {
					if p, okp := streamPos(v.args[0].args[0]); okp && p == 33 && e.isRef(v.args[0].args[1], wSize) {
						ok = true
					}
				}
			}
		}
		if !ok {
			bad("read-payload", fmt.Sprintf("the payload is %v, not the bytes of the announced size that follow the head", t), o.pos)
		}
	}
	for _, o := range r.failure() {
		if endOfData(e, o.st) || e.factOn(o.st, "NE", wSig, sig) || e.above(o.st, wSize, new(big.Int).Add(lim, bigOne)) {
			continue
		}
		bad("read-refusals", "a complete frame within the limits is refused", o.pos)
	}
	n := 0
	for _, o := range e.obs {
		if o.name != "make" {
			continue
		}
		for _, sz := range o.args {
			if _, isC := sz.intConst(); isC {
				continue
			}
			n++
			if !e.isRef(sz, wSize) || !e.factOn(o.st, "LE", wSize, lim) {
				bad("read-allocation", "memory is allocated for a frame whose size was not compared with the maximum", o.pos)
			}
		}
	}
	c.counts["frame allocations"] += n
	for _, x := range [][2]string{{"read-signature", "signature compared"}, {"read-size-limit", "size limited"}, {"read-fields", "fields at their places"}, {"read-payload", "payload complete"}, {"read-refusals", "complete frames are accepted"}, {"read-allocation", "allocation after the comparison"}} {
		if _, failed := fail[x[0]]; !failed {
			c.ob(x[0], con, fn.Pos(), true, x[1])
		}
	}
}

func (e *Eng) isRef(t *Term, w wireRef) bool {
	g, ok := e.wireRef(t)
	return ok && g == w
}

// boolIs: t is true exactly if the bits of mask in the number at w are set (set) or clear (!set).
func (e *Eng) boolIs(st *State, t *Term, w wireRef, mask int64, set bool) bool {
	masked := func(f *Fact, pol bool) bool {
		if f == nil || f.b != nil || f.a == nil || f.kind != "EQ" && f.kind != "NE" {
			return false
		}
		a := stripWide(f.a)
		ok := false
		if a.op == OpBin && a.str == "&" {
			for i := 0; i < 2; i++ {
				if m, isC := a.args[i].intConst(); isC && m.Int64() == mask && e.isRef(a.args[1-i], w) {
					ok = true
				}
			}
		} else if w.n == 1 && mask == 0xff {
			ok = e.isRef(a, w)
		}
		if !ok {
			return false
		}
		isSet := false
		switch {
		case f.c.Sign() == 0:
			isSet = f.kind == "NE"
		case f.c.Cmp(big.NewInt(mask)) == 0 && mask&(mask-1) == 0:
			isSet = f.kind == "EQ"
		default:
			return false
		}
		return isSet == (set == pol)
	}
	if b, isC := t.isBoolConst(); isC {
		for _, f := range st.facts.list() {
			if masked(f, b) {
				return true
			}
		}
		return false
	}
	return masked(e.toFact(t, true), true)
}

func (c *Ctx) invokeRules() {
	r := c.run("", c.fn("p2p", "LevinProtocol", "Invoke"), levinCfg(), []string{"p", "command", "req", "res"})
	if r == nil {
		return
	}
	e, con := r.e, fname(r.fn)
	why := ""
	for _, o := range r.success() {
		cmd, resp := false, false
		for _, f := range o.st.facts.list() {
			if f.kind == "EQ" && f.a != nil && f.b != nil && f.c.Sign() == 0 && (e.isRef(f.a, wCmd) && f.b == r.args[1] || e.isRef(f.b, wCmd) && f.a == r.args[1]) {
				cmd = true
			}
		}
		resp = e.boolIs(o.st, e.in.Bool(true), wFlags, 2, true)
		if !cmd {
			why = "an answer is taken whose command is not the one sent"
		} else if !resp {
			why = "a message is taken for the answer that is not marked as one"
		}
	}
	c.ob("answer-matches", con, r.fn.Pos(), why == "" && len(r.success()) > 0, why)
	r.must("answer-decoded", "Unmarshal(_, res) == nil", "the request succeeds only if the answer was decoded")
}

func (c *Ctx) wireRules() {
	c.frameWritten("frame-request", "Invoke", []string{"p", "command", "req", "res"}, 1, true)
	c.frameWritten("frame-notification", "Notify", []string{"p", "command", "notification"}, 1, false)
	c.frameWritten("frame-answer", "Reply", []string{"p", "command", "reply", "returnCode"}, 2, false)
	c.frameRead()
	c.invokeRules()
}

func init() {
	register("W01", "Messages travel in complete, correct frames", "", nil, func(c *Ctx) { c.wireRules() })
}
