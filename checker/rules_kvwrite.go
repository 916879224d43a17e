package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The writing half of the key-value format (W02). Nested writers are operations of the content they
// extend: "kvnum n", "kvval value,asArray", "kvfield description", "kvraw value".

var kvWriters = map[string]string{
	"binary.Encoder.writeVarInt": "kvnum",
	"binary.Encoder.writeValue":  "kvval",
	"binary.Encoder.encode":      "kvfield",
}

func kvWriteCfg(opaque ...string) EngCfg {
	cfg := kvCfg(append(opaque, "binary.Encoder.getType", "binary.getStructBinaryMetadata")...)
	cfg.Model = (*frame).kvModel
	return cfg
}

func (fr *frame) kvModel(b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *State) ([]Out, bool) {
	e := fr.e
	kind := kvWriters[name]
	var w, val *Term
	switch {
	case kind != "":
		w = e.streamOf(st, args[0], c.Signature().Recv().Type(), "w")
		switch kind {
		case "kvnum":
			for val = args[1]; val.op == OpConv && scalarWidth(val.typ) >= 8 && val.args[0].typ != nil && isInteger(val.args[0].typ); {
				val = val.args[0]
			}
		case "kvval":
			val = e.in.mk(Term{op: OpCall, str: "kv", args: args[1:]})
		default:
			val = e.view(st, args[1])
		}
	case name == "binary.Write":
		v := unIface(args[2])
		if v.op != OpCall || v.str != "reflect.Value.Interface" || !strings.Contains(args[1].String(), "LittleEndian") && !strings.Contains(args[1].String(), "littleEndian") {
			return nil, false
		}
		kind, w, val = "kvraw", args[0], v.args[0]
	}
	if kind == "" || w == nil {
		return nil, false
	}
	w = unIface(w)
	k := e.cell("w", w)
	ok, bad := st.clone(), st.clone()
	ok.store[k] = e.concat(e.getCell(st, "w", w), e.w(e.empty(), kind, val))
	bad.store[k] = e.in.mk(Term{op: OpCall, str: "r:fail", args: []*Term{e.getCell(st, "w", w)}})
	bad.facts.add(e.in.fact(Fact{kind: "EV", name: "writefail", args: []*Term{val}, pos: in.Pos()}))
	err := e.in.mk(Term{op: OpCall, str: "writeerr", uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: types.Universe.Lookup("error").Type()})
	bad.facts.add(e.eqFact(err, e.in.Nil(), false))
	return []Out{{res: []*Term{e.in.Nil()}, st: ok}, {res: []*Term{err}, st: bad}}, true
}

func (r *Run) isTerm(t *Term, pat string, b bmap) bool {
	if t == nil {
		return false
	}
	if b == nil {
		b = bmap{}
	}
	return r.pm.term(r.pm.parse(pat), t, b, func(bmap) bool { return true })
}

// kindOf: the term for the kind of what the path is about.
func kindOf(st *State, of *Term) *Term {
	var k *Term
	for _, f := range st.facts.list() {
		for _, x := range []*Term{f.a, f.b} {
			walkTerm(x, func(y *Term) {
				if y.op == OpCall && (y.str == "reflect.Value.Kind" || y.str == "reflect.Type.Kind") && len(y.args) == 1 {
					if z := y.args[0]; z == of || z.op == OpCall && z.str == "reflect.Value.Type" && z.args[0] == of {
						k = y
					}
				}
			})
		}
	}
	return k
}

// simpleKind: is the kind that of a number? yes and no by the table or by value.
func (r *Run) simpleKind(st *State, kind *Term) tri {
	b := bmap{"v_k": kind}
	if k := r.valueOf(st, kind); k >= 0 {
		for _, x := range kvSimple {
			if x == k {
				return yes
			}
		}
		return no
	}
	if r.pm.Holds(st, "has(mapSimpleKindToBType, v_k)", b) {
		return yes
	}
	if r.pm.Holds(st, "!has(mapSimpleKindToBType, v_k)", b) {
		return no
	}
	return unknown
}

func (r *Run) opsOf(st *State, field string) ([]wop, bool) {
	w := r.e.streamOf(st, r.args[0], r.fn.Signature.Recv().Type(), field)
	if w == nil {
		return nil, false
	}
	return r.e.wops(r.e.getCell(st, "w", w), nil, 0)
}

func (r *Run) bytesAre(op wop, pat string, b bmap) bool {
	if op.kind != "bytes" {
		return false
	}
	t := stripConv(op.val)
	return r.isTerm(t, pat, b) || r.isTerm(op.val, pat, b)
}

func (c *Ctx) kvTypeByte() {
	fn := c.fn("encoding/binary", "Encoder", "getType")
	r := c.run("", fn, kvWriteCfg(), []string{"e", "typ", "asArray"})
	if r == nil {
		return
	}
	con := fname(fn)
	why, pos := "", fn.Pos()
	set := func(s string, p token.Pos) {
		if why == "" {
			why, pos = s, p
		}
	}
	seen := map[string]bool{}
	inv := map[int64]int64{}
	for t, k := range kvSimple {
		inv[k] = t
	}
	for _, o := range r.success() {
		dumpFacts("type-written", o.st, nil)
		kind := kindOf(o.st, r.pm.params["typ"])
		if kind == nil {
			set("a type byte is given for a value of any kind", o.pos)
			continue
		}
		b := bmap{"v_k": kind}
		k := r.valueOf(o.st, kind)
		ret := o.res[0]
		rc, isC := ret.intConst()
		const item = "binary.Encoder.getType(_, reflect.Type.Elem(typ), false)"
		switch {
		case r.simpleKind(o.st, kind) == yes:
			seen["number"] = true
			if !(isC && k >= 0 && rc.Int64() == inv[k]) && !r.isTerm(ret, "get(mapSimpleKindToBType, v_k)", b) {
				set("a number gets another type byte than its kind's", o.pos)
			}
		case k == 24 && isC && rc.Int64() == 10, k == 25 && isC && rc.Int64() == 12:
			seen[fmt.Sprint(k)] = true
		case k == 17 || k == 23, r.pm.Holds(o.st, "v_k == 17 || v_k == 23", b):
			switch {
			case r.holdsFalse(o.st, r.pm.params["asArray"]):
				seen["binary"] = true
				if !isC || rc.Int64() != 10 {
					set("a list that is written as binary data does not get the type of binary data", o.pos)
				}
			case r.holdsTrue(o.st, r.pm.params["asArray"]):
				seen["array"] = true
				ok := false
				for _, p := range []string{"128 | r0(" + item + ")", "r0(" + item + ") | 128", "128 + r0(" + item + ")", "r0(" + item + ") + 128"} {
					ok = ok || r.isTerm(ret, p, nil)
				}
				if !ok || !r.pm.Holds(o.st, "nil == r1("+item+")", nil) {
					set("an array does not get the array flag and the type byte of its items", o.pos)
				}
			default:
				set("the type byte of a list does not depend on whether it is written as an array", o.pos)
			}
		default:
			set("a value gets a type byte that is not its kind's", o.pos)
		}
	}
	for _, k := range []string{"number", "24", "25", "binary", "array"} {
		if !seen[k] {
			set("values of kind "+k+" get no type byte", fn.Pos())
		}
	}
	for _, o := range r.failure() {
		kind := kindOf(o.st, r.pm.params["typ"])
		if r.pm.Holds(o.st, "nil != r1(binary.Encoder.getType(_, _, _))", nil) || kind != nil && r.noKind(o.st, kind) {
			continue
		}
		set("a value of a kind the format has is refused", o.pos)
	}
	if g := c.globalVar("encoding/binary", "mapSimpleKindToBType"); g != nil {
		ok := sameTable(c.mapLiteral(g), inv)
		c.ob("kind-table", "binary.mapSimpleKindToBType", g.Pos(), ok, "the kinds of numbers have the type bytes of the format")
	}
	c.ob("type-written", con, pos, why == "", why)
}

// noKind: the kind is none of those that can be written.
func (r *Run) noKind(st *State, kind *Term) bool {
	b := bmap{"v_k": kind}
	return r.simpleKind(st, kind) != yes && r.pm.Holds(st, "v_k != 17", b) && r.pm.Holds(st, "v_k != 23", b) &&
		r.pm.Holds(st, "v_k != 24", b) && r.pm.Holds(st, "v_k != 25", b)
}

func (c *Ctx) kvValueWrite() {
	fn := c.fn("encoding/binary", "Encoder", "writeValue")
	r := c.run("", fn, kvWriteCfg("binary.Encoder.writeVarInt", "binary.Encoder.encode"), []string{"e", "value", "asArray"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	seen := map[string]bool{}
	value := r.pm.params["value"]
	for _, o := range r.success() {
		dumpFacts("value-written", o.st, nil)
		fail := func(why string) { c.ob("value-written", con, o.pos, false, why) }
		if writeFailed(o.st) {
			fail("a value that could not be written counts as written")
			continue
		}
		ops, ok := r.opsOf(o.st, "w")
		kind := kindOf(o.st, value)
		if !ok || kind == nil {
			fail("what is written for a value cannot be determined")
			continue
		}
		is := func(op wop, k, pat string) bool { return op.kind == k && r.isTerm(op.val, pat, nil) }
		k := r.valueOf(o.st, kind)
		list := k == 17 || k == 23 || r.pm.Holds(o.st, "v_k == 17 || v_k == 23", bmap{"v_k": kind})
		switch {
		case r.simpleKind(o.st, kind) == yes:
			seen["number"] = true
			if len(ops) != 1 || ops[0].kind != "kvraw" || ops[0].val != value {
				fail("a number is written as " + opsString(ops))
			}
		case k == 24:
			seen["text"] = true
			text := "reflect.Value.Interface(value)"
			if len(ops) != 2 || !is(ops[0], "kvnum", "reflect.Value.Len(value)") && !is(ops[0], "kvnum", "len(as("+text+", string))") && !is(ops[0], "kvnum", "len(reflect.Value.String(value))") ||
				!r.bytesAre(ops[1], "as("+text+", string)", nil) && !r.bytesAre(ops[1], text, nil) && !r.bytesAre(ops[1], "reflect.Value.String(value)", nil) {
				fail("text is not written as its length and its bytes: " + opsString(ops))
			}
		case k == 25:
			seen["record"] = true
			meta := "r0(binary.getStructBinaryMetadata(value, true))"
			ok := r.pm.Holds(o.st, "nil == r1(binary.getStructBinaryMetadata(value, true))", nil) && len(ops) == 2 && is(ops[0], "kvnum", "len("+meta+".order)")
			ok = ok && r.eachOnce(o.st, ops[1], "kvfield", meta+".order[i]", "len("+meta+".order)")
			if !ok {
				fail("a record is not written as the number of its fields and the fields in order: " + opsString(ops))
			}
		case list && r.holdsTrue(o.st, r.pm.params["asArray"]):
			seen["array"] = true
			ok := len(ops) == 2 && is(ops[0], "kvnum", "reflect.Value.Len(value)")
			ok = ok && r.eachOnce(o.st, ops[1], "kvval", "kv(reflect.Value.Index(value, i), false)", "reflect.Value.Len(value)")
			if !ok {
				fail("an array is not written as the number of its items and the items in order: " + opsString(ops))
			}
		case list && r.holdsFalse(o.st, r.pm.params["asArray"]):
			seen["binary data"] = true
			ok := len(ops) == 2 && ops[0].kind == "kvnum" && ops[1].kind == "kvraw" && ops[1].val == value
			if ok {
				n := ops[0].val
				ok = n.op == OpLen
				if ok {
					nops, known := e.wops(e.bytesOf(o.st, n.args[0]), nil, 0)
					ok = known && len(nops) == 1 && nops[0].kind == "kvraw" && nops[0].val == value
				}
				ok = ok || r.isTerm(n, "binary.Size(reflect.Value.Interface(value))", nil)
			}
			if !ok {
				fail("binary data is not written as its length and its bytes: " + opsString(ops))
			}
		default:
			fail("a value is written whose kind the format does not have, or without regard to its kind")
		}
	}
	for _, k := range []string{"number", "text", "record", "array", "binary data"} {
		if !seen[k] {
			c.ob("value-written", con, fn.Pos(), false, "no path writes: "+k)
		}
	}
	c.ob("value-written", con, fn.Pos(), true, "")
	why, pos := "", fn.Pos()
	for _, o := range r.failure() {
		kind := kindOf(o.st, value)
		if writeFailed(o.st) || r.pm.Holds(o.st, "nil != r1(binary.getStructBinaryMetadata(value, _))", nil) || kind != nil && r.noKind(o.st, kind) {
			continue
		}
		why, pos = "a value of a kind the format has is refused", o.pos
	}
	c.ob("value-not-refused", con, pos, why == "", why)
}

// eachOnce: the operation is a loop that writes one thing per round, as often as stated.
func (r *Run) eachOnce(st *State, op wop, kind, item, n string) bool {
	li := r.e.lvs[op.lv]
	if op.kind != "star" || li == nil || len(op.alts) == 0 || !r.counted(st, li.loop, n) {
		return false
	}
	b := bmap{"i": r.e.loops[li.loop].iter}
	for _, a := range op.alts {
		if len(a.ops) != 1 || a.ops[0].kind != kind || !r.isTerm(a.ops[0].val, item, b) {
			return false
		}
	}
	return true
}

func (c *Ctx) kvFieldWrite() {
	fn := c.fn("encoding/binary", "Encoder", "encode")
	r := c.run("", fn, kvWriteCfg("binary.Encoder.writeVarInt", "binary.Encoder.writeValue"), []string{"e", "field"})
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	set := func(s string, p token.Pos) {
		if why == "" {
			why, pos = s, p
		}
	}
	const typ = "binary.Encoder.getType(_, reflect.Value.Type(field.value), field.asArray)"
	named, plain := 0, 0
	for _, o := range r.success() {
		dumpFacts("field-written", o.st, nil)
		if writeFailed(o.st) {
			set("a field that could not be written counts as written", o.pos)
			continue
		}
		ops, ok := r.opsOf(o.st, "w")
		if !ok || len(ops) == 0 {
			set("what is written for a field cannot be determined", o.pos)
			continue
		}
		last := ops[len(ops)-1]
		if last.kind != "kvval" || !r.isTerm(last.val, "kv(field.value, field.asArray)", nil) {
			set("the value of a field is not what is written after its name and type: "+opsString(ops), o.pos)
			continue
		}
		ops = ops[:len(ops)-1]
		if r.pm.Holds(o.st, "field.name == \"\" || len(field.name) == 0 || len(field.name) <= 0", nil) {
			plain++
			if len(ops) != 0 {
				set("a value without name gets a prefix: "+opsString(ops), o.pos)
			}
			continue
		}
		named++
		ok = len(ops) == 3 && ops[0].kind == "raw1" && ops[2].kind == "raw1" && r.bytesAre(ops[1], "field.name", nil)
		if ok {
			l := stripConv(ops[0].val)
			ok = r.isTerm(l, "len(field.name)", nil) && r.isTerm(stripConv(ops[2].val), "r0("+typ+")", nil) && r.pm.Holds(o.st, "nil == r1("+typ+")", nil)
			_, hi := e.bounds(o.st, l, 0)
			if ok && (hi == nil || hi.Int64() > 255) {
				set("a name of more than 255 bytes is written with a length that does not fit", o.pos)
			}
		}
		if !ok {
			set("a field does not start with the length of its name, the name and its type: "+opsString(ops), o.pos)
		}
	}
	for _, o := range r.failure() {
		if !writeFailed(o.st) && !r.pm.Holds(o.st, "nil != r1("+typ+") || len(field.name) > 255", nil) {
			set("a field that can be written is refused", o.pos)
		}
	}
	c.need("paths that write a named field", named, 1)
	c.need("paths that write an unnamed value", plain, 1)
	c.ob("field-written", con, pos, why == "", why)
}

func (c *Ctx) kvMessageWrite() {
	fn := c.fn("encoding/binary", "", "Marshal")
	r := c.run("", fn, kvWriteCfg("binary.Encoder.writeVarInt", "binary.Encoder.encode", "binary.Encoder.writeValue"), []string{"v"}, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
	if r == nil {
		return
	}
	e, con := r.e, fname(fn)
	why, pos := "", fn.Pos()
	n := 0
	for _, o := range r.success() {
		dumpFacts("message-written", o.st, nil)
		n++
		if writeFailed(o.st) {
			why, pos = "a message that could not be written counts as written", o.pos
			continue
		}
		ops, ok := e.wops(e.bytesOf(o.st, stripConv(o.res[0])), nil, 0)
		if !ok || len(ops) == 0 {
			why, pos = "the message is not what was written", o.pos
			continue
		}
		last := ops[len(ops)-1]
		switch {
		case last.kind == "kvval" && r.isTerm(last.val, "kv(reflect.ValueOf(v), false)", nil):
		case last.kind == "kvfield" && r.isTerm(e.zeroOrField(last.val, "value"), "reflect.ValueOf(v)", nil) && isEmptyStr(e.zeroOrField(last.val, "name")) &&
			r.holdsFalse(o.st, e.zeroOrField(last.val, "asArray")):
		default:
			why, pos = "the message does not hold the given value: "+opsString(ops), o.pos
		}
		by, ok := e.bytesOfOps(ops[:len(ops)-1])
		ok = ok && len(by) == len(kvHead)
		for i := 0; ok && i < len(by); i++ {
			ok = by[i].val == nil && by[i].c == kvHead[i]
		}
		if !ok && why == "" {
			why, pos = "the message does not start with the head of the format: "+opsString(ops), o.pos
		}
	}
	for _, o := range r.failure() {
		if !writeFailed(o.st) && why == "" {
			why, pos = "a message that can be written is refused", o.pos
		}
	}
	c.need("paths that write a message", n, 1)
	c.ob("message-written", con, pos, why == "", why)
}

func isEmptyStr(t *Term) bool {
	return t != nil && t.op == OpConst && t.val != nil && t.val.Kind() == constant.String && constant.StringVal(t.val) == ""
}

func init() {
	register("W02", "Message encoding", "", nil, func(c *Ctx) {
		c.writeVarIntRule()
		c.kvTypeByte()
		c.kvValueWrite()
		c.kvFieldWrite()
		c.kvMessageWrite()
		c.kvFields()
	})
}
