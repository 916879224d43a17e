package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the key-value format messages are encoded in.

func kvCfg(opaque ...string) EngCfg {
	m := map[string]bool{}
	for _, o := range opaque {
		m[o] = true
	}
	return EngCfg{
		Streams: true, PathMode: true, TrackIdx: true,
		Opaque: func(f *ssa.Function) bool { return m[fname(f)] },
		Impure: func(n string) bool { return true },
		Track:  func(n string) bool { return false },
	}
}

// markOf: the two low bits of the first byte of the stream, as far as the facts decide them.
func (e *Eng) markOf(st *State) (int, bool) {
	poss := []int{}
	for m := 0; m < 4; m++ {
		ok := true
		for _, f := range st.facts.list() {
			if f.b != nil || f.a == nil || len(f.loops) != 0 {
				continue
			}
			v, known := e.evalLow(st, f.a, m)
			if !known {
				continue
			}
			c := f.c.Int64()
			switch f.kind {
			case "EQ":
				ok = ok && v == c
			case "NE":
				ok = ok && v != c
			case "LE":
				ok = ok && v <= c
			}
		}
		if ok {
			poss = append(poss, m)
		}
	}
	if len(poss) == 1 {
		return poss[0], true
	}
	return -len(poss), false
}

// evalLow: the value of t if it depends on the two low bits of the first byte only.
func (e *Eng) evalLow(st *State, t *Term, m int) (int64, bool) {
	bs := e.bits(st, t)
	v := int64(0)
	for i, b := range bs {
		switch {
		case b.atom == "":
			if i < 62 {
				v |= int64(b.c) << uint(i)
			} else if b.c != 0 {
				return 0, false
			}
		case b.atom == "byte0" && b.k < 2 && i < 62:
			v |= int64(m>>uint(b.k)&1) << uint(i)
		default:
			return 0, false
		}
	}
	return v, true
}

// streamOf: the stream behind a field of a value.
func (e *Eng) streamOf(st *State, v *Term, t types.Type, field string) *Term {
	at := e.fieldAddr(v, t, field)
	if at == nil {
		return nil
	}
	return e.load(st, at)
}

var varIntLen = [4]int{1, 2, 4, 8}

func (c *Ctx) readVarIntRule() {
	fn := c.fn("encoding/binary", "Decoder", "readVarInt")
	r := c.run("", fn, kvCfg(), []string{"d"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	seen := map[int]bool{}
	why, pos := "", fn.Pos()
	for _, o := range r.success() {
		m, ok := e.markOf(o.st)
		if !ok && m == 0 {
			continue // no first byte leads here
		}
		rd := e.streamOf(o.st, r.args[0], fn.Signature.Recv().Type(), "r")
		if !ok || rd == nil {
			why, pos = "the length is not decided by the two low bits of the first byte", o.pos
			continue
		}
		n, okp := streamPos(e.getCell(o.st, "r", rd))
		if !okp || int(n) != varIntLen[m] {
			why, pos = fmt.Sprintf("a number with mark %d takes %d bytes, the format has %d", m, n, varIntLen[m]), o.pos
			continue
		}
		var all []bit
		for i := 0; i < varIntLen[m]; i++ {
			all = append(all, atomBits(fmt.Sprintf("byte%d", i), 8)...)
		}
		if !eqBits(e.bits(o.st, o.res[0]), fit(append([]bit{}, all[2:]...), 64)) {
			why, pos = fmt.Sprintf("a number with mark %d is read as %v", m, o.res[0]), o.pos
			continue
		}
		seen[m] = true
	}
	for m := range varIntLen {
		if !seen[m] && why == "" {
			why = fmt.Sprintf("numbers with mark %d are not read", m)
		}
	}
	for _, o := range r.failure() {
		if !endOfData(e, o.st) && why == "" {
			why, pos = "a number is refused although all of it is there", o.pos
		}
	}
	c.counts["numbers read"] = len(seen)
	c.ob("number-read", con, pos, why == "", why)
}

func (c *Ctx) writeVarIntRule() {
	fn := c.fn("encoding/binary", "Encoder", "writeVarInt")
	r := c.run("", fn, kvCfg(), []string{"e", "i"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	seen := map[int]bool{}
	lim := func(k int) *big.Int { // first number too big for k bytes
		return new(big.Int).Lsh(bigOne, uint(8*k-2))
	}
	for _, o := range r.success() {
		wr := e.streamOf(o.st, r.args[0], fn.Signature.Recv().Type(), "w")
		if wr == nil {
			why = "the writer is unknown"
			break
		}
		ops, ok := e.wops(e.getCell(o.st, "w", wr), nil, 0)
		var by [][]bit
		if ok {
			by, ok = e.contentBits(o.st, ops)
		}
		m := -1
		for k, n := range varIntLen {
			if len(by) == n {
				m = k
			}
		}
		if !ok || m < 0 {
			why, pos = "the bytes written cannot be determined: "+opsString(ops), o.pos
			continue
		}
		n := varIntLen[m]
		want := append([]bit{{c: m & 1}, {c: m >> 1}}, e.bits(o.st, r.args[1])...)
		for _, b := range want[8*n:] {
			if b != (bit{}) {
				why, pos = fmt.Sprintf("a number that does not fit is written in %d byte(s)", n), o.pos
			}
		}
		if why == "" && !eqBits(joinBytes(by, false), want[:8*n]) {
			why, pos = fmt.Sprintf("the %d byte(s) written are not the number with mark %d: %s", n, m, opsString(ops)), o.pos
		}
		if m > 0 {
			if lo, _ := e.bounds(o.st, r.args[1], 0); lo == nil || lo.Cmp(lim(varIntLen[m-1])) < 0 {
				why, pos = fmt.Sprintf("a number that fits in %d byte(s) is written in %d", varIntLen[m-1], n), o.pos
			}
		}
		seen[m] = true
	}
	for m := range varIntLen {
		if !seen[m] && why == "" {
			why = fmt.Sprintf("numbers of %d byte(s) are not written", varIntLen[m])
		}
	}
	for _, o := range r.failure() {
		lo, _ := e.bounds(o.st, r.args[1], 0)
		if !(lo != nil && lo.Cmp(lim(8)) >= 0) && !endOfData(e, o.st) && !writeFailed(o.st) && why == "" {
			why, pos = "a number that fits is refused", o.pos
		}
	}
	c.counts["numbers written"] = len(seen)
	c.ob("number-written", con, pos, why == "", why)
}

// writeFailed: a write failed.
func writeFailed(st *State) bool {
	for f := range st.facts.m {
		if f.kind == "EV" && f.name == "writefail" {
			return true
		}
	}
	return false
}

// ---- reading (W04) ----------------------------------------------------------------------------

var kvSetters = map[string]bool{
	"reflect.Value.Set": true, "reflect.Value.SetString": true, "reflect.Copy": true,
	"reflect.MakeSlice": true, "reflect.Value.SetLen": true, "reflect.Value.Grow": true, "reflect.Value.SetCap": true, "bytes.Buffer.Grow": true,
	"reflect.MakeMapWithSize": true,
}

func kvReadCfg(opaque ...string) EngCfg {
	cfg := kvCfg(opaque...)
	cfg.Track = func(n string) bool { return kvSetters[n] }
	return cfg
}

const (
	kvItem  = "reflect.Value.Elem(reflect.New(reflect.Type.Elem(reflect.Value.Type(value))))"
	kvItemP = "reflect.Value.Interface(reflect.New(reflect.Type.Elem(reflect.Value.Type(value))))"
	kvNew   = "reflect.Value.Elem(reflect.New(reflect.Value.Type(value)))"
)

var kvOpaque = []string{"binary.Decoder.readVarInt", "binary.Decoder.readName", "binary.getStructBinaryMetadata", "binary.Decoder.decode", "binary.Decoder.readValue"}

func without(l []string, x string) (r []string) {
	for _, s := range l {
		if s != x {
			r = append(r, s)
		}
	}
	return
}

// typeTerm: the type byte a path speaks about: the one given, or when none is given the next byte.
func (r *Run) typeTerm(st *State) *Term {
	e := r.e
	typ := r.pm.params["typ"]
	switch {
	case e.decide(st, e.equ(typ, e.in.Int(0))) == no:
		return typ
	case e.decide(st, e.equ(typ, e.in.Int(0))) != yes:
		return nil
	}
	var t *Term
	for _, f := range st.facts.list() {
		for _, x := range []*Term{f.a, f.b} {
			walkTerm(x, func(y *Term) {
				if k, ok := rdOf(y); ok && k == "raw1" && y.op == OpCall && t == nil {
					t = y
				}
			})
		}
	}
	return t
}

// isArray: does the type byte have the array flag on this path?
func (r *Run) isArray(st *State, t *Term, b bmap) tri {
	if r.pm.Holds(st, "v_t & 128 == 128 || v_t & 128 != 0 || v_t >= 128 || v_t & 128 > 0", b) {
		return yes
	}
	if r.pm.Holds(st, "v_t & 128 != 128 || v_t & 128 == 0 || v_t < 128", b) {
		return no
	}
	if c := r.valueOf(st, t); c >= 0 {
		if c&128 != 0 {
			return yes
		}
		return no
	}
	return unknown
}

// valueOf: the constant a term equals on this path, or -1.
func (r *Run) valueOf(st *State, t *Term) int64 {
	if c, ok := t.intConst(); ok {
		return c.Int64()
	}
	lo, hi := r.e.bounds(st, t, 0)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return lo.Int64()
	}
	return -1
}

// announced: the value consists of the bytes read, as many as announced.
func (r *Run) announced(st *State, t *Term) bool {
	e := r.e
	t = unIface(t)
	if t.op == OpCall && t.str == "reflect.ValueOf" {
		t = unIface(t.args[0])
	}
	ops, ok := e.wops(e.bytesOf(st, stripConv(t)), nil, 0)
	if !ok || len(ops) != 1 {
		return false
	}
	v := ops[0].val
	if k, is := rdOf(v); !is || k != "var" {
		return false
	}
	n := stripConv(v).args[0].args[1]
	for n.op == OpConv && (n.typ == nil || scalarWidth(n.typ) >= 8) {
		n = n.args[0]
	}
	return r.pm.term(r.pm.parse("r0(binary.Decoder.readVarInt(d))"), n, bmap{}, func(bmap) bool { return true })
}

// readsAnnounced: the reader goes over the bytes announced.
func (r *Run) readsAnnounced(st *State, rd *Term) bool {
	e := r.e
	rd = unIface(rd)
	if li := e.lvs[rd]; li != nil {
		for o := range e.readers {
			if li.key == fmt.Sprintf("cell:%d", o.id) {
				rd = o
			}
		}
	}
	over := e.readers[rd]
	for _, t := range over {
		if !r.announced(st, t) {
			return false
		}
	}
	return len(over) > 0
}

// event: the tracked call happened on this path with these arguments.
func (r *Run) fact(st *State, pat string, b bmap) (bmap, bool) { return r.pm.HoldsB(st, pat, b) }

// appended: the loop value is a list that starts empty and to which every round adds one item read by a
// call of this form.
func (r *Run) appended(t *Term, item string) (bool, string) {
	e := r.e
	li := e.lvs[stripConv(t)]
	if li == nil {
		return false, "the list stored is not built item by item"
	}
	empty := false
	for _, p := range []string{kvNew, "reflect.MakeSlice(reflect.Value.Type(value), 0, _)", "reflect.Zero(reflect.Value.Type(value))"} {
		empty = empty || r.pm.term(r.pm.parse(p), li.init, bmap{}, func(bmap) bool { return true })
	}
	if !empty {
		return false, fmt.Sprintf("the list starts as %v", li.init)
	}
	for _, s := range li.steps {
		v := s.val
		if v.op != OpCall || v.str != "reflect.Append" || len(v.args) != 2 || v.args[0] != stripConv(t) {
			return false, fmt.Sprintf("a round leaves the list as %v", v)
		}
		x := e.in.Elem(v.args[1], e.in.Int(0), nil)
		if n, ok := e.in.Len(v.args[1]).intConst(); ok && n.Int64() != 1 {
			return false, "a round adds more than one item"
		}
		if !r.pm.term(r.pm.parse(kvItem), x, bmap{}, func(bmap) bool { return true }) {
			return false, fmt.Sprintf("a round adds %v", x)
		}
		if !r.pm.Holds(s.st, item, nil) {
			return false, "a round adds an item that was not read successfully"
		}
	}
	return len(li.steps) > 0, "no round adds an item"
}

var kvSimple = map[int64]int64{1: 6, 2: 5, 3: 4, 4: 3, 5: 11, 6: 10, 7: 9, 8: 8, 9: 14, 11: 1}

func (c *Ctx) kvValueRead() {
	fn := c.fn("encoding/binary", "Decoder", "readValue")
	r := c.run("", fn, kvReadCfg(without(kvOpaque, "binary.Decoder.readValue")...), []string{"d", "value", "typ"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	shapes := map[string]int{}
	fail := func(o Out, why string) { c.ob("value-fits", con, o.pos, false, why) }
	for _, o := range r.success() {
		dumpFacts("value-fits", o.st, nil)
		st := o.st
		t := r.typeTerm(st)
		if t == nil {
			fail(o, "the type of the value is neither given nor read")
			continue
		}
		b := bmap{"v_t": t}
		kind := e.in.mk(Term{op: OpCall, str: "reflect.Value.Kind", args: []*Term{r.pm.params["value"]}})
		for _, f := range st.facts.list() {
			for _, x := range []*Term{f.a, f.b} {
				walkTerm(x, func(y *Term) {
					if y.op == OpCall && y.str == "reflect.Value.Kind" && len(y.args) == 1 && y.args[0] == r.pm.params["value"] {
						kind = y
					}
				})
			}
		}
		k, tv := r.valueOf(st, kind), r.valueOf(st, t)
		b["v_k"] = kind
		arr := r.isArray(st, t, b)
		set, isSet := r.fact(st, "ev(\"reflect.Value.Set\", value, v_x)", b)
		switch {
		case r.pm.Holds(st, "get(mapBTypeToSimpleKind, v_t) == v_k", b) || tv > 0 && k > 0 && kvSimple[tv] == k:
			shapes["number"]++
			if !r.pm.Holds(st, "nil == binary.Read(d.r, binary.LittleEndian, reflect.Value.Interface(reflect.Value.Addr(value)))", b) {
				fail(o, "a number is accepted without being read into the field")
			}
		case arr == yes:
			shapes["array"]++
			if k != 23 {
				fail(o, "an array of values is accepted for a field that is no slice")
				continue
			}
			if !r.pm.Holds(st, "nil == r1(binary.Decoder.readVarInt(d))", b) || !isSet {
				fail(o, "an array of values is accepted without its size being read or without being stored")
				continue
			}
			ok, why := r.appended(set["v_x"], "nil == binary.Decoder.readValue(d, "+kvItem+", v_i)")
			for _, s := range e.stepsOf(set["v_x"]) {
				ib, found := r.fact(s.st, "nil == binary.Decoder.readValue(d, "+kvItem+", v_i)", nil)
				low := false
				if found {
					for _, p := range []string{"v_t & 127", "v_t ^ 128", "minus(v_t, 128)", "v_t - 128", "v_t % 128"} {
						low = low || r.pm.term(r.pm.parse(p), ib["v_i"], bmap{"v_t": t}, func(bmap) bool { return true })
					}
				}
				if !low && ok {
					ok, why = false, "an item is read with another type than the array's"
				}
			}
			if ok && !r.counted(st, e.lvs[stripConv(set["v_x"])].loop, "r0(binary.Decoder.readVarInt(d))") {
				ok, why = false, "the number of items read is not the number announced"
			}
			if !ok {
				fail(o, "an array of values: "+why)
			}
		case tv == 10:
			if !r.pm.Holds(st, "nil == r1(binary.Decoder.readVarInt(d))", b) {
				fail(o, "binary data is accepted without its size being read")
				continue
			}
			switch k {
			case 24:
				shapes["text"]++
				x, ok := r.fact(st, "ev(\"reflect.Value.SetString\", value, v_x)", b)
				if !ok || !r.announced(st, x["v_x"]) {
					fail(o, "text is accepted without the announced bytes being read and stored")
				}
			case 17:
				shapes["fixed array"]++
				x, ok := r.fact(st, "ev(\"reflect.Copy\", "+kvNew+", v_x)", b)
				if !ok {
					x, ok = r.fact(st, "ev(\"reflect.Copy\", value, v_x)", b)
					isSet = isSet || ok
				}
				if !ok || !r.announced(st, x["v_x"]) || !isSet {
					fail(o, "a fixed array is accepted without the announced bytes being read and stored")
					continue
				}
				if set != nil && set["v_x"] != nil && !r.pm.term(r.pm.parse(kvNew), set["v_x"], bmap{}, func(bmap) bool { return true }) {
					fail(o, "another value than the bytes read is stored")
				}
				n := x["v_x"]
				if n.op == OpCall && n.str == "reflect.ValueOf" {
					n = unIface(n.args[0])
				}
				if !r.pm.Holds(st, "reflect.Value.Len(value) == v_n", bmap{"v_n": e.in.Len(n)}) && !r.pm.Holds(st, "reflect.Value.Len(value) == r0(binary.Decoder.readVarInt(d))", nil) &&
					!r.pm.Holds(st, "reflect.Type.Len(reflect.Value.Type(value)) == v_n", bmap{"v_n": e.in.Len(n)}) {
					fail(o, "a fixed array is accepted with another number of bytes")
				}
			case 23:
				shapes["packed items"]++
				if !isSet {
					fail(o, "packed items are not stored")
					continue
				}
				ok, why := r.appended(set["v_x"], "nil == binary.Read(_, binary.LittleEndian, "+kvItemP+") && 1 <= binary.Size("+kvItemP+")")
				for _, s := range e.stepsOf(set["v_x"]) {
					x, is := r.fact(s.st, "nil == binary.Read(v_r, binary.LittleEndian, "+kvItemP+")", nil)
					if ok && is {
						if !r.readsAnnounced(s.st, x["v_r"]) {
							ok, why = false, "the items are not read from the announced bytes"
						}
					}
				}
				if ok && !r.pm.Holds(st, "io.EOF == binary.Read(_, binary.LittleEndian, "+kvItemP+")", nil) {
					ok, why = false, "reading stops before the data is used up"
				}
				if !ok {
					fail(o, "packed items: "+why)
				}
			default:
				fail(o, "binary data is accepted for a field that cannot hold it")
			}
		case tv == 12:
			shapes["record"]++
			if k != 25 {
				fail(o, "a record is accepted for a field that is none")
				continue
			}
			if !isSet || !r.pm.term(r.pm.parse(kvNew), set["v_x"], bmap{}, func(bmap) bool { return true }) ||
				!r.pm.Holds(st, "nil == binary.Decoder.decode(d, reflect.Value.Interface(reflect.New(reflect.Value.Type(value))))", nil) {
				fail(o, "a record is accepted without being read and stored")
			}
		default:
			fail(o, "a value is accepted whose type does not fit the field")
		}
	}
	for _, s := range []string{"number", "array", "text", "fixed array", "packed items", "record"} {
		c.need("paths that accept: "+s, shapes[s], 1)
	}
	if g := c.globalVar("encoding/binary", "mapBTypeToSimpleKind"); g != nil {
		c.ob("type-table", "binary.mapBTypeToSimpleKind", g.Pos(), sameTable(c.mapLiteral(g), kvSimple), "the type bytes of numbers belong to the kinds of the format")
	}
	for _, o := range r.failure() {
		t := r.typeTerm(o.st)
		ok := endOfData(e, o.st)
		if t != nil && !ok {
			b := bmap{"v_t": t}
			arr := r.isArray(o.st, t, b)
			ok = r.pm.Holds(o.st, strings.Join([]string{
				"nil != r1(binary.Decoder.readVarInt(d))",
				"nil != binary.Decoder.decode(d, _)",
				"nil != binary.Decoder.readValue(d, _, _)",
				"nil != binary.Read(_, _, _)",
				"reflect.Value.Len(value) != _",
				"reflect.Type.Len(_) != _",
				"binary.Size(" + kvItemP + ") <= 0",
			}, " || "), b)
			kn := func(k string) bool { return r.pm.Holds(o.st, "reflect.Value.Kind(value) != "+k, nil) }
			simple := r.pm.Holds(o.st, "get(mapBTypeToSimpleKind, v_t) != reflect.Value.Kind(value) || !has(mapBTypeToSimpleKind, v_t)", b)
			tv := r.valueOf(o.st, t)
			switch {
			case ok || !simple:
			case arr == yes:
				ok = kn("23")
			case tv == 10:
				ok = kn("23") && kn("17") && kn("24")
			case tv == 12:
				ok = kn("25")
			default:
				ok = r.pm.Holds(o.st, "v_t != 10 && v_t != 12", b)
			}
			if ok && !simple && !r.pm.Holds(o.st, "get(mapBTypeToSimpleKind, v_t) == reflect.Value.Kind(value)", b) {
				ok = simple
			}
		} else if t == nil {
			ok = ok || r.pm.Holds(o.st, "nil != binary.Read(_, _, _)", nil)
		}
		if !ok {
			dumpFacts("value-refused", o.st, nil)
			c.ob("value-refused", con, o.pos, false, "a value that is complete and fits its field is refused")
			return
		}
	}
	c.ob("value-refused", con, fn.Pos(), true, "a value is refused only when it is incomplete or does not fit its field")
	c.ob("value-fits", con, fn.Pos(), true, "checked")
	c.kvLoops(r)
}

func sameTable(a, b map[int64]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if x, ok := a[k]; !ok || x != v {
			return false
		}
	}
	return true
}

func (e *Eng) stepsOf(t *Term) []lvStep {
	if li := e.lvs[stripConv(t)]; li != nil {
		return li.steps
	}
	return nil
}

// counted: the loop was left after exactly this many rounds.
func (r *Run) counted(st *State, loop int, n string) bool {
	l := r.e.loops[loop]
	return l != nil && r.pm.Holds(st, "done(i, "+n+")", bmap{"i": l.iter})
}

// kvLoops: every round of every loop uses up data, or the loop goes over something already there; and
// nothing is allocated by an announced size.
func (c *Ctx) kvLoops(r *Run) {
	e, con := r.e, fname(r.fn)
	uses := "nil == binary.Decoder.readValue(d, _, _) || nil == r1(binary.Decoder.readVarInt(d)) || nil == r1(binary.Decoder.readName(d)) || nil == binary.Decoder.decode(d, _) || nil == binary.Read(_, _, v_p) && 1 <= binary.Size(v_p)"
	for _, l := range e.loops {
		for _, st := range l.backs {
			ok := r.pm.Holds(st, uses, bmap{})
			for _, f := range st.facts.list() {
				if !ok && f.kind == "LE" && f.a == l.iter && f.b != nil && f.c.Sign() < 0 {
					b := stripConv(f.b)
					ok = b.op == OpLen || b.op == OpCall && (b.str == "reflect.Type.NumField" || b.str == "reflect.Value.NumField" || b.str == "reflect.Value.Len" || b.str == "remaining")
				}
			}
			if !ok {
				c.ob("ends", con, l.pos, false, "a round of this loop may leave all data in place: decoding may never end")
				return
			}
		}
	}
	c.ob("ends", con, r.fn.Pos(), true, "every round of every loop uses up data")
	for _, o := range e.obs {
		var sizes []*Term
		switch o.name {
		case "make":
			sizes = o.args
		case "reflect.MakeSlice", "reflect.MakeMapWithSize", "reflect.Value.SetLen", "reflect.Value.Grow", "reflect.Value.SetCap", "bytes.Buffer.Grow":
			sizes = o.args[1:]
		}
		for _, sz := range sizes {
			if ok, why := e.boundedSize(o.st, sz); !ok {
				c.ob("allocation", con, o.pos, false, "an allocation of "+why+" elements is not bounded by the data present")
				return
			}
		}
	}
	c.ob("allocation", con, r.fn.Pos(), true, "no allocation follows an announced size")
}

func (c *Ctx) globalVar(pkg, name string) *ssa.Global {
	p := c.p.SPkg[pkgPath(pkg)]
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

func (c *Ctx) kvRecordRead() {
	fn := c.fn("encoding/binary", "Decoder", "decode")
	r := c.run("", fn, kvReadCfg(without(kvOpaque, "binary.Decoder.decode")...), []string{"d", "v"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	set := func(s string, p token.Pos) {
		if why == "" {
			why, pos = s, p
		}
	}
	meta := "binary.getStructBinaryMetadata(reflect.ValueOf(v), false)"
	var loop *Loop
	for _, l := range e.loops {
		if len(l.backs) > 0 {
			if loop != nil {
				set("more than one loop over the fields", fn.Pos())
			}
			loop = l
		}
	}
	if loop == nil {
		set("no loop over the fields", fn.Pos())
	} else {
		for _, st := range loop.backs {
			if !r.pm.Holds(st, "nil == r1(binary.Decoder.readName(d))", nil) || !r.pm.Holds(st, "has(r0("+meta+").fields, r0(binary.Decoder.readName(d)))", nil) {
				set("a field is accepted without its name being one of the record's", loop.pos)
			}
			if !r.pm.Holds(st, "nil == binary.Decoder.readValue(d, get(r0("+meta+").fields, r0(binary.Decoder.readName(d))).value, 0)", nil) {
				set("a field is accepted without its value being read into the field of this name", loop.pos)
			}
		}
		for _, o := range r.success() {
			if !r.pm.Holds(o.st, "nil == r1(binary.Decoder.readVarInt(d))", nil) || !r.counted(o.st, loop.id, "r0(binary.Decoder.readVarInt(d))") {
				set("a record is accepted with another number of fields than announced", o.pos)
			}
		}
	}
	for _, o := range r.failure() {
		if !r.pm.Holds(o.st, "reflect.Type.Kind(_) != 22 || reflect.Value.Kind(_) != 22 || nil != r1(binary.Decoder.readVarInt(d)) || nil != r1(binary.Decoder.readName(d)) || nil != r1("+meta+") || nil != binary.Decoder.readValue(d, _, _) || !has(r0("+meta+").fields, r0(binary.Decoder.readName(d)))", nil) {
			set("a record is refused whose fields are all known and complete", o.pos)
		}
	}
	c.need("accepting paths of decode", len(r.success()), 1)
	c.ob("record-read", con, pos, why == "", why)
	c.kvLoops(r)
}

func (c *Ctx) kvNameRead() {
	fn := c.fn("encoding/binary", "Decoder", "readName")
	r := c.run("", fn, kvReadCfg(), []string{"d"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	for _, o := range r.success() {
		ops, ok := e.wops(e.bytesOf(o.st, stripConv(o.res[0])), nil, 0)
		if !ok || len(ops) != 1 {
			why, pos = fmt.Sprintf("the name is %v", o.res[0]), o.pos
			continue
		}
		rd := stripConv(ops[0].val)
		k, is := rdOf(rd)
		if !is || k != "var" {
			why, pos = fmt.Sprintf("the name is %v", ops[0].val), o.pos
			continue
		}
		at, n := rd.args[0].args[0], stripConv(rd.args[0].args[1])
		for n.op == OpElem && isZeroInt(n.args[1]) {
			n = n.args[0]
		}
		if kk, is := rdOf(n); !is || kk != "raw1" || stripConv(n).args[0] != at {
			why, pos = "the length of the name is not the byte in front of it", o.pos
		}
	}
	for _, o := range r.failure() {
		if !endOfData(e, o.st) && why == "" {
			why, pos = "a name is refused although all of it is there", o.pos
		}
	}
	c.need("accepting paths of readName", len(r.success()), 1)
	c.ob("name-read", con, pos, why == "", why)
	c.kvLoops(r)
}

func (c *Ctx) kvMessageRead() {
	fn := c.fn("encoding/binary", "", "Unmarshal")
	r := c.run("", fn, kvReadCfg("binary.Decoder.decode"), []string{"b", "v"}, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	n := 0
	for _, o := range r.success() {
		n++
		if !r.headIs(o.st) {
			dumpFacts("head", o.st, nil)
			why, pos = "a message is accepted whose head is another", o.pos
		}
		if !r.pm.Holds(o.st, "nil == binary.Decoder.decode(_, v)", nil) {
			why, pos = "a message is accepted although its contents are refused", o.pos
		}
	}
	for _, o := range r.failure() {
		if why == "" && !endOfData(e, o.st) && !r.pm.Holds(o.st, "nil != binary.Decoder.decode(_, v) || nil != r1(bytes.Reader.Read(_, _)) || len(b) < _", nil) && !r.headIsNot(o.st) {
			dumpFacts("head", o.st, nil)
			why, pos = "a message with the right head is refused", o.pos
		}
	}
	c.need("accepting paths of Unmarshal", n, 1)
	c.ob("head", con, pos, why == "", why)
	c.kvLoops(r)
}

// kvHead: signature A, signature B, version.
var kvHead = [9]int64{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 1}

// headIs: every byte of the head equals the format's, by the facts of the path.
func (r *Run) headIs(st *State) bool {
	var seen [9]bool
	for _, f := range st.facts.list() {
		if f.kind != "EQ" || f.a == nil || f.b != nil {
			continue
		}
		at, n := r.headPart(f.a)
		for i := 0; i < n; i++ {
			if want := f.c.Int64() >> uint(8*i) & 255; at+i < 9 && kvHead[at+i] == want {
				seen[at+i] = true
			}
		}
	}
	for _, s := range seen {
		if !s {
			return false
		}
	}
	return true
}

func (r *Run) headIsNot(st *State) bool {
	for _, f := range st.facts.list() {
		if f.kind == "NE" && f.b != nil && f.a != nil && f.c.Sign() == 0 && (f.a.op == OpComp || f.b.op == OpComp) {
			// records differ: the one of them that equals the head says which
			s := newState()
			r.e.assumeFields(s, r.e.in.fact(Fact{kind: "EQ", a: f.a, b: f.b, c: f.c}))
			return r.headIs(s)
		}
		if f.kind != "NE" || f.a == nil || f.b != nil {
			continue
		}
		at, n := r.headPart(f.a)
		for i := 0; i < n; i++ {
			if at+i < 9 && kvHead[at+i] != f.c.Int64()>>uint(8*i)&255 {
				return false
			}
		}
		if n > 0 {
			return true
		}
	}
	return false
}

// headPart: which bytes of the head a term is.
func (r *Run) headPart(t *Term) (at, n int) {
	t = stripConv(t)
	switch {
	case t.op == OpCall && strings.HasPrefix(t.str, "getraw") && len(t.args) == 2:
		k, ok := t.args[1].intConst()
		if w := rawLen(strings.TrimPrefix(t.str, "get")); ok && (strings.HasSuffix(t.str, "le") || w == 1) {
			return int(k.Int64()), int(w)
		}
	case t.op == OpElem:
		if k, ok := t.args[1].intConst(); ok {
			return int(k.Int64()), 1
		}
	}
	return 0, 0
}

// kvFields: the fields of a record: one per tagged field, under the first part of its tag.
func (c *Ctx) kvFields() {
	fn := c.fn("encoding/binary", "", "getStructBinaryMetadata")
	r := c.run("", fn, kvReadCfg(), []string{"val", "omit"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	set := func(s string, p token.Pos) {
		if why == "" {
			why, pos = s, p
		}
	}
	for _, o := range r.success() {
		dumpFacts("fields", o.st, nil)
		res := unIface(o.res[0])
		at := func(name string) *Term {
			p := e.fieldAddr(res, fn.Signature.Results().At(0).Type(), name)
			if p == nil {
				return nil
			}
			return e.load(o.st, p)
		}
		fields, order := at("fields"), at("order")
		if fields == nil || order == nil {
			set("the result is no list of fields", o.pos)
			continue
		}
		li := e.lvs[order]
		if li == nil {
			set("the fields are not collected one by one", o.pos)
			continue
		}
		l := e.loops[li.loop]
		v := "val"
		if r.pm.Holds(o.st, "reflect.Type.Kind(_) == 22 || reflect.Value.Kind(_) == 22", nil) {
			v = "reflect.Value.Elem(val)"
		}
		b := bmap{"i": l.iter, "v_m": fields}
		if !r.pm.Holds(o.st, "done(i, reflect.Type.NumField(reflect.Value.Type("+v+"))) || done(i, reflect.Value.NumField("+v+"))", b) {
			set("not every field is looked at", o.pos)
		}
		lookup := "reflect.StructTag.Lookup(reflect.Type.Field(reflect.Value.Type(" + v + "), i).Tag, \"binary\")"
		name := "strings.Split(r0(" + lookup + "), \",\")[0]"
		for _, s := range li.steps {
			tagged := r.pm.Holds(s.st, "r1("+lookup+")", b)
			put, isPut := r.fact(s.st, "ev(\"put\", v_m, "+name+", v_d)", b)
			if !tagged {
				if !r.pm.Holds(s.st, "!r1("+lookup+")", b) || s.val != order || r.pm.Holds(s.st, "ev(\"put\", v_m, _, _)", b) {
					set("a field without name in the format is taken, or one with a name is left out", l.pos)
				}
				continue
			}
			if !isPut {
				set("a field is not entered under its name", l.pos)
				continue
			}
			md := put["v_d"]
			f := func(n string) *Term { return e.zeroOrField(md, n) }
			is := func(t *Term, p string) bool {
				return r.pm.term(r.pm.parse(p), t, b, func(bmap) bool { return true })
			}
			if !is(f("name"), name) || !is(f("value"), "reflect.Value.Field("+v+", i)") {
				set("a field is entered with another name or value", l.pos)
			}
			for n, word := range map[string]string{"asArray": "array", "omitEmpty": "omitempty"} {
				if !r.option(s.st, f(n), word) {
					set("the option "+word+" of a field is not taken from its tag", l.pos)
				}
			}
			switch {
			case s.val == order:
				om := f("omitEmpty")
				if !(r.holdsTrue(s.st, om) && r.pm.Holds(s.st, "omit && reflect.Value.IsZero(reflect.Value.Field("+v+", i))", b)) {
					set("a field is left out that is not empty, or may not be left out", l.pos)
				}
			default:
				x := s.val
				ok := x.op == OpAppend && x.args[0] == order
				if ok {
					n, isC := e.in.Len(x.args[1]).intConst()
					ok = isC && n.Int64() == 1
				}
				if ok {
					y := e.in.Elem(x.args[1], e.in.Int(0), nil)
					for _, n := range []string{"name", "value", "asArray", "omitEmpty"} {
						ok = ok && e.zeroOrField(y, n) == f(n)
					}
				}
				if !ok {
					set("the list of fields does not get the field in its place", l.pos)
				}
				if !r.pm.Holds(s.st, "!omit || !reflect.Value.IsZero(reflect.Value.Field("+v+", i))", b) && !r.holdsFalse(s.st, f("omitEmpty")) {
					set("an empty field that is to be left out is kept", l.pos)
				}
			}
		}
		c.counts["ways to treat a field"] += len(li.steps)
	}
	c.need("paths of getStructBinaryMetadata", len(r.success()), 1)
	c.ob("fields", con, pos, why == "", why)
}

func (e *Eng) zeroOrField(t *Term, n string) *Term {
	ty := t.typ
	if s, ok := ty.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return e.in.Field(t, n, s.Field(i).Type(), 0)
			}
		}
	}
	return nil
}

func (r *Run) holdsTrue(st *State, t *Term) bool {
	if v, ok := t.isBoolConst(); ok {
		return v
	}
	return r.e.decide(st, r.e.in.fact(Fact{kind: "T", a: t})) == yes
}

func (r *Run) holdsFalse(st *State, t *Term) bool {
	if v, ok := t.isBoolConst(); ok {
		return !v
	}
	return r.e.decide(st, r.e.in.fact(Fact{kind: "F", a: t})) == yes
}

// option: the flag is set exactly when one of the words of the tag is this one.
func (r *Run) option(st *State, t *Term, word string) bool {
	if t == nil {
		return false
	}
	other := map[string]string{"array": "omitempty", "omitempty": "array"}[word]
	is, not := fmt.Sprintf("_ == %q", word), fmt.Sprintf("_ != %q || _ == %q", word, other)
	if v, ok := t.isBoolConst(); ok {
		if v {
			return r.pm.Holds(st, is, nil)
		}
		for _, l := range r.e.loops {
			all := len(l.backs) > 0
			for _, b := range l.backs {
				all = all && r.pm.Holds(b, not, nil)
			}
			if all {
				return true
			}
		}
		return false
	}
	li := r.e.lvs[t]
	if li == nil {
		return false
	}
	if v, ok := li.init.isBoolConst(); !ok || v {
		return false
	}
	set := 0
	for _, s := range li.steps {
		switch v, ok := s.val.isBoolConst(); {
		case ok && v && r.pm.Holds(s.st, is, nil):
			set++
		case s.val == t && r.pm.Holds(s.st, not, nil):
		default:
			return false
		}
	}
	return set > 0
}

func init() {
	register("W04", "Message decoding", "", nil, func(c *Ctx) {
		c.kvValueRead()
		c.kvRecordRead()
		c.kvNameRead()
		c.readVarIntRule()
		c.kvMessageRead()
		c.kvFields()
	})
}
