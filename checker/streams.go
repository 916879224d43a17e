package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stream mode follows every path of a function; a natural loop is analysed once from a state in which
// everything the loop changes is replaced by a loop value (OpFresh "lv:..."), and the values it has at
// the end of each path through the body are recorded as the loop's steps. Byte readers and writers are
// modelled: the content of a writer and the position of a reader are terms built from the operations
// applied so far, so that the final term describes the grammar the function reads or writes.

type lvStep struct {
	val *Term
	st  *State
}

type lvInfo struct {
	init  *Term
	steps []lvStep
	loop  int
	key   string
}

type regExit struct {
	b, from *ssa.BasicBlock
	pi      int
	st      *State
}

func (e *Eng) fingerprint(st *State) int {
	l := st.facts.list()
	var sb strings.Builder
	for _, f := range l {
		fmt.Fprintf(&sb, "%d,", f.id)
	}
	var ks []string
	for k, v := range st.store {
		ks = append(ks, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(ks)
	h := sb.String() + "|" + strings.Join(ks, ";")
	if e.fps == nil {
		e.fps = map[string]int{}
	}
	if n, ok := e.fps[h]; ok {
		return n
	}
	e.fps[h] = len(e.fps) + 1
	return len(e.fps)
}

func (fr *frame) phiEdges(b *ssa.BasicBlock, pi int, st *State) ([]*ssa.Phi, []*Term) {
	var phs []*ssa.Phi
	var vs []*Term
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phs = append(phs, ph)
		vs = append(vs, fr.val(st, ph.Edges[pi]))
	}
	return phs, vs
}

func (fr *frame) runStreams(s0 *State) []Out {
	var outs []Out
	fr.region(nil, []regExit{{b: fr.fi.rpo[0], st: s0}}, &outs)
	return outs
}

// region follows the given items within a loop (nil: the function); it returns the states that take the
// back edge and those that leave.
func (fr *frame) region(l *natLoop, items []regExit, outs *[]Out) (backs, exits []regExit) {
	e := fr.e
	work := append([]regExit{}, items...)
	first := l != nil
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.budget--
		if e.budget < 0 || e.late() {
			e.problem("path budget exhausted in %s", fname(fr.fn))
			return
		}
		if !first || it.from != nil {
			if l != nil && it.b == l.header {
				backs = append(backs, it)
				continue
			}
			if l != nil && !l.blocks[it.b] {
				exits = append(exits, it)
				continue
			}
			if inner := fr.fi.loops[it.b]; inner != nil && inner != l {
				work = append(work, fr.loop(inner, it, outs)...)
				continue
			}
		}
		first = false
		st := it.st
		if it.from != nil {
			phs, vs := fr.phiEdges(it.b, it.pi, st)
			for i := range phs {
				st.env[phs[i]] = vs[i]
			}
		}
		e.paths++
		res := make([][]*State, len(it.b.Succs))
		fr.outs[it.b.Index] = nil
		fr.block(it.b, st, res)
		*outs = append(*outs, fr.outs[it.b.Index]...)
		for k, s := range it.b.Succs {
			for _, ns := range res[k] {
				pi := 0
				for j, p := range s.Preds {
					if p == it.b && edgeMatch(it.b, s, k, j) {
						pi = j
					}
				}
				work = append(work, regExit{b: s, from: it.b, pi: pi, st: ns.clone()})
			}
		}
	}
	return
}

func (fr *frame) loop(l *natLoop, it regExit, outs *[]Out) []regExit {
	e := fr.e
	h := l.header
	id := e.loopID(fr, h)
	E := it.st
	fp := e.fingerprint(E)
	phs, vs := fr.phiEdges(h, it.pi, E)
	iter := e.loops[id].iter
	lv := func(key string, init *Term, typ types.Type) *Term {
		t := e.in.mk(Term{op: OpFresh, str: "lv:" + key, uid: fmt.Sprintf("%s/%s#%d:%s@%d.%d", fr.ctx, fname(fr.fn), h.Index, key, init.id, fp), typ: typ, loops: unionInts(fr.activeAt(h), []int{id})})
		if e.lvs == nil {
			e.lvs = map[*Term]*lvInfo{}
		}
		e.lvs[t] = &lvInfo{init: init, loop: id, key: key}
		return t
	}
	cells := map[*Term]bool{}
	vers := map[string]bool{}
	for round := 0; ; round++ {
		if round > 60 {
			e.problem("no stable loop state in %s", fname(fr.fn))
			return nil
		}
		G := E.clone()
		var lvt []*Term // per phi
		for i, ph := range phs {
			dir, _ := iterPhi(l, ph)
			switch {
			case dir == 1:
				G.env[ph] = e.in.Add(vs[i], iter)
				lvt = append(lvt, nil)
			case dir == -1:
				G.env[ph] = e.in.Sub(vs[i], iter)
				lvt = append(lvt, nil)
			default:
				t := lv("phi:"+ph.Name(), vs[i], ph.Type())
				G.env[ph] = t
				lvt = append(lvt, t)
			}
		}
		cellLV := map[*Term]*Term{}
		for _, c := range sortedTerms(cells) {
			init := e.cellInit(E, c)
			t := lv(fmt.Sprintf("cell:%d", c.id), init, c.typ)
			cellLV[c] = t
			fr.dropChildren(G, c)
			G.store[c] = t
		}
		for k := range vers {
			G.ver[k] = e.in.version(fmt.Sprintf("L%s/%s#%d:%s@%d", fr.ctx, fname(fr.fn), h.Index, k, fp), unionInts(fr.activeAt(h), []int{id}))
		}
		var o2 []Out
		backs, exits := fr.region(l, []regExit{{b: h, st: G.clone()}}, &o2)
		again := false
		for _, b := range backs {
			for k, v := range b.st.store {
				if g, ok := G.store[k]; ok && g == v || cells[k] {
					continue
				}
				r := k
				if r.op == OpCall && strings.HasPrefix(r.str, "$cell") {
					r = r.args[0]
				}
				for r.op == OpFAddr || r.op == OpIAddr {
					r = r.args[0]
				}
				if hasInt(r.loops, id) || mentionsIter(k, iter) {
					continue // made inside the loop
				}
				cells[k] = true
				again = true
			}
			for k := range G.store {
				if _, ok := b.st.store[k]; !ok && !cells[k] {
					r := placeRoot(k)
					if r.op == OpObj && hasInt(r.loops, id) {
						continue
					}
					cells[k] = true
					again = true
				}
			}
			for k, v := range b.st.ver {
				if G.ver[k] != v && !vers[k] && !strings.HasPrefix(k, "next:") {
					vers[k] = true
					again = true
				}
			}
		}
		if again {
			continue
		}
		may := newFactSet()
		for _, b := range backs {
			_, bv := fr.phiEdges(h, b.pi, b.st)
			for i, t := range lvt {
				if t != nil {
					e.lvs[t].steps = append(e.lvs[t].steps, lvStep{bv[i], b.st})
				}
			}
			for c, t := range cellLV {
				v, ok := b.st.store[c]
				if !ok {
					v = e.in.mk(Term{op: OpFresh, str: "lost", uid: fmt.Sprint(c.id)})
				}
				e.lvs[t].steps = append(e.lvs[t].steps, lvStep{v, b.st})
			}
			for f := range b.st.may.m {
				may.add(f)
			}
		}
		e.loops[id].backs = append(e.loops[id].backs, statesOf(backs)...)
		*outs = append(*outs, o2...)
		for i := range exits {
			exits[i].st = exits[i].st.clone()
			for f := range may.m {
				exits[i].st.may.add(f)
			}
		}
		return exits
	}
}

func statesOf(rs []regExit) []*State {
	var ss []*State
	for _, r := range rs {
		ss = append(ss, r.st)
	}
	return ss
}

func mentionsIter(t, iter *Term) bool {
	if t == iter {
		return true
	}
	for _, a := range t.args {
		if mentionsIter(a, iter) {
			return true
		}
	}
	return false
}

func sortedTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (e *Eng) cellInit(st *State, c *Term) *Term {
	if v, ok := st.store[c]; ok {
		return v
	}
	if c.op == OpCall {
		return e.cellDefault(c)
	}
	return e.load(st, c)
}

// ---- streams ----------------------------------------------------------------------------------

// cell is the store key of the hidden content of a stream object or byte array.
func (e *Eng) cell(kind string, p *Term) *Term {
	return e.in.mk(Term{op: OpCall, str: "$cell:" + kind, args: []*Term{p}})
}

func (e *Eng) cellDefault(c *Term) *Term {
	switch c.str {
	case "$cell:w":
		if c.args[0].op == OpObj {
			return e.in.mk(Term{op: OpCall, str: "w:empty"})
		}
		return e.in.mk(Term{op: OpCall, str: "w:start", args: []*Term{c.args[0]}})
	case "$cell:r":
		return e.in.mk(Term{op: OpCall, str: "r:start", args: []*Term{c.args[0]}})
	}
	return e.in.mk(Term{op: OpCall, str: "none", args: []*Term{c.args[0]}})
}

func (e *Eng) getCell(st *State, kind string, p *Term) *Term {
	c := e.cell(kind, p)
	if v, ok := st.store[c]; ok {
		return v
	}
	return e.cellDefault(c)
}

func unIface(t *Term) *Term {
	for t.op == OpIface {
		t = t.args[0]
	}
	return t
}

// staticSize is the number of bytes encoding/binary uses for a value of the type, -1 if not fixed.
func staticSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if n := staticSize(u.Elem()); n >= 0 {
			return n * u.Len()
		}
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := staticSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// scalarWidth: the widest integer inside, for which the byte order matters.
func scalarWidth(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return scalarWidth(u.Elem())
	case *types.Struct:
		m := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			if w := scalarWidth(u.Field(i).Type()); w > m {
				m = w
			}
		}
		return m
	}
	return staticSize(t)
}

func rawKind(t types.Type, order *Term) string {
	n := staticSize(t)
	k := fmt.Sprintf("raw%d", n)
	if scalarWidth(t) > 1 {
		o := "?"
		if order != nil {
			s := order.String() + " " + typeName(order)
			switch {
			case strings.Contains(strings.ToLower(s), "littleendian"):
				o = "le"
			case strings.Contains(strings.ToLower(s), "bigendian"):
				o = "be"
			}
		}
		k += o
	}
	return k
}

// rawContent: the bytes encoding/binary writes for a value.
func (e *Eng) rawContent(v *Term, t types.Type, order *Term, d int) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok && e.cfg.Fields && d < 4 {
		r := e.empty()
		for i := 0; i < s.NumFields(); i++ {
			r = e.concat(r, e.rawContent(e.in.Field(v, fieldName(s, i), s.Field(i).Type(), 0), s.Field(i).Type(), order, d+1))
		}
		return r
	}
	return e.w(e.empty(), rawKind(t, order), v)
}

func typeName(t *Term) string {
	if t.typ == nil {
		return ""
	}
	return typeStr(t.typ)
}

type wop struct {
	kind string // uv, rawN[le|be], bytes, star, alt:start
	val  *Term
	lv   *Term
	alts []walt
}

type walt struct {
	ops []wop
	st  *State
}

func (e *Eng) w(prev *Term, kind string, val *Term) *Term {
	if kind == "raw0" {
		return prev
	}
	return e.in.mk(Term{op: OpCall, str: "w:" + kind, args: []*Term{prev, val}})
}

// writeBytes appends the bytes denoted by a slice value to a content.
func (e *Eng) writeBytes(st *State, prev, b *Term) *Term {
	c := e.bytesOf(st, b)
	return e.concat(prev, c)
}

func (e *Eng) concat(a, b *Term) *Term {
	if b.op == OpCall && b.str == "w:empty" {
		return a
	}
	if a.op == OpCall && a.str == "w:empty" {
		return b
	}
	return e.in.mk(Term{op: OpCall, str: "w:cat", args: []*Term{a, b}})
}

func (e *Eng) empty() *Term { return e.in.mk(Term{op: OpCall, str: "w:empty"}) }

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// bytesOf is the content of a byte slice (or array) value in the current state.
func (e *Eng) bytesOf(st *State, b *Term) *Term {
	b = unIface(b)
	if b.isNil() {
		return e.empty()
	}
	if v, ok := st.store[e.cell("b", b)]; ok {
		return v
	}
	switch b.op {
	case OpCall:
		if b.str == "bytesof" {
			return b.args[0]
		}
		if b.str == "byteseq" {
			r := e.empty()
			for _, x := range b.args {
				r = e.concat(r, e.w(e.empty(), "raw1", x))
			}
			return r
		}
		if b.str == "copyof" && b.args[0].op == OpCall && b.args[0].str == "bytesof" && b.typ != nil {
			// a copy that fills the whole array
			t := b.typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if a, ok := t.Underlying().(*types.Array); ok {
				if ops, ok := e.wops(b.args[0].args[0], nil, 0); ok {
					if bs, ok := e.bytesOfOps(ops); ok && int64(len(bs)) == a.Len() {
						return b.args[0].args[0]
					}
				}
			}
		}
	case OpAppend:
		r := e.bytesOf(st, b.args[0])
		for _, x := range b.args[1:] {
			r = e.concat(r, e.bytesOf(st, x))
		}
		return r
	case OpSlice:
		base := b.args[0]
		if hi, ok := b.args[2].intConst(); ok && !b.args[2].isNil() && hi.Sign() == 0 {
			return e.empty()
		}
		if v, ok := st.store[e.cell("b", base)]; ok && b.args[1].isNil() {
			if v.op == OpCall && v.str == "w:uv" && b.args[2].op == OpCall && b.args[2].str == "uvlen" && b.args[2].args[0] == v.args[1] {
				return v
			}
			if v.op == OpCall && strings.HasPrefix(v.str, "w:raw") {
				if n, ok := b.args[2].intConst(); ok && n.Cmp(big.NewInt(rawLen(v.str[2:]))) == 0 {
					return v
				}
			}
		}
		v := e.viewBytes(st, base)
		if v.op == OpCall && v.str == "bytesof" && (b.args[1].isNil() || isZeroInt(b.args[1])) && (b.args[2].isNil() || b.args[2] == e.in.Len(base)) {
			return v.args[0]
		}
		if v.op == OpCall && v.str == "bytesof" || v.op == OpAppend {
			// a constant part of a known content
			if seg := e.cutBytes(e.bytesOf(st, v), b.args[1], b.args[2]); seg != nil {
				return seg
			}
		}
		return e.w(e.empty(), "bytes", e.in.mk(Term{op: OpSlice, args: []*Term{v, b.args[1], b.args[2]}, typ: b.typ}))
	case OpObj, OpFAddr, OpIAddr:
		if c := e.segBytes(st, b); c != nil {
			return c
		}
		v := e.load(st, b)
		if v != b {
			return e.bytesOf(st, v)
		}
	case OpMake:
		if c := e.segBytes(st, b); c != nil {
			return c
		}
		if n, ok := e.in.Len(b).intConst(); ok && n.Sign() == 0 {
			return e.empty()
		}
	case OpComp:
		// an array literal: every element written at a constant index
		t := b.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 256 {
			r := e.empty()
			for i := int64(0); i < a.Len(); i++ {
				x := e.in.Elem(b, e.in.Int(i), a.Elem())
				r = e.concat(r, e.w(e.empty(), "raw1", x))
			}
			return r
		}
	case OpConst:
		if b.val != nil {
			return e.w(e.empty(), "bytes", b)
		}
	}
	if b.typ != nil {
		t := b.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return e.w(e.empty(), fmt.Sprintf("raw%d", staticSize(a)), b)
		}
	}
	return e.w(e.empty(), "bytes", b)
}

func (e *Eng) viewBytes(st *State, b *Term) *Term {
	if isPlace(b) {
		return e.load(st, b)
	}
	return b
}

func rawLen(k string) int64 {
	n := int64(0)
	fmt.Sscanf(k, "raw%d", &n)
	return n
}

// byteSeq: the bytes of a sequence of known length, one term each.
func (e *Eng) byteSeq(st *State, t *Term) ([]*Term, bool) {
	t = unIface(t)
	u8 := types.Typ[types.Uint8]
	span := func(x *Term, lo, hi int64, at func(i int64) *Term) (r []*Term, ok bool) {
		for i := lo; i < hi; i++ {
			y := at(i)
			if y == nil {
				return nil, false
			}
			r = append(r, y)
		}
		return r, true
	}
	switch {
	case t.isNil():
		return nil, true
	case t.op == OpAppend:
		var r []*Term
		for _, a := range t.args {
			s, ok := e.byteSeq(st, a)
			if !ok {
				return nil, false
			}
			r = append(r, s...)
		}
		return r, true
	case t.op == OpCall && t.str == "byteseq":
		return t.args, true
	}
	base, lo, hi := e.region3(t)
	l, ok1 := lo.intConst()
	h, ok2 := hi.intConst()
	if !ok1 || !ok2 || l.Sign() < 0 || h.Cmp(big.NewInt(64)) > 0 {
		return nil, false
	}
	if _, ok := st.store[e.cell("seg", base)]; ok {
		return span(base, l.Int64(), h.Int64(), func(i int64) *Term { return e.segElem(st, base, e.in.Int(i)) })
	}
	switch {
	case base.op == OpAppend || base.op == OpCall && base.str == "byteseq":
		s, ok := e.byteSeq(st, base)
		if !ok || h.Int64() > int64(len(s)) || l.Cmp(h) > 0 {
			return nil, false
		}
		return s[l.Int64():h.Int64()], true
	case base.op == OpMake && st.ver[elemKey(base)] == 0:
		return span(base, l.Int64(), h.Int64(), func(i int64) *Term { return e.in.Int(0) })
	case base.op == OpParam:
		return span(base, l.Int64(), h.Int64(), func(i int64) *Term { return e.in.Elem(base, e.in.Int(i), u8) })
	}
	if isPlace(base) {
		v := e.load(st, base)
		if v != base && (v.op == OpZero || v.op == OpComp) {
			return span(base, l.Int64(), h.Int64(), func(i int64) *Term { return e.in.Elem(v, e.in.Int(i), u8) })
		}
	}
	return nil, false
}

func (e *Eng) cutBytes(c, lo, hi *Term) *Term { return nil }

// ---- byte segments written into an array or a made slice ---------------------------------------

// segKey: one write of known extent, kept in the cell as (lo, hi, content) triples.
func (e *Eng) addSeg(st *State, base, lo, hi, content *Term) {
	c := e.cell("seg", base)
	var args []*Term
	if v, ok := st.store[c]; ok {
		l, ok1 := lo.intConst()
		h, ok2 := hi.intConst()
		for i := 0; i+2 < len(v.args); i += 3 {
			if v.args[i] == lo && v.args[i+1] == hi {
				continue // overwritten
			}
			a, ok3 := v.args[i].intConst()
			b, ok4 := v.args[i+1].intConst()
			if ok1 && ok2 && ok3 && ok4 && l.Cmp(a) <= 0 && b.Cmp(h) <= 0 {
				continue
			}
			args = append(args, v.args[i:i+3]...)
		}
	} else {
		z, ok := st.store[base]
		if base.op == OpMake && st.ver[elemKey(base)] == 0 || base.op == OpObj && ok && z.op == OpZero {
			st.store[e.cell("segz", base)] = e.in.Bool(true)
		}
	}
	st.store[c] = e.in.mk(Term{op: OpCall, str: "segs", args: append(append([]*Term{}, args...), lo, hi, content)})
	for k := range st.store { // elements stored one by one
		if k.op == OpIAddr && k.args[0] == base && !(e.in.Add(k.args[1], e.in.Int(1)) == hi && k.args[1] == lo) {
			l, ok1 := lo.intConst()
			h, ok2 := hi.intConst()
			x, ok3 := k.args[1].intConst()
			if !(ok1 && ok2 && ok3 && (x.Cmp(l) < 0 || x.Cmp(h) >= 0)) {
				delete(st.store, k)
			}
		}
	}
}

// segElem: the byte with a constant number of an array written piece by piece.
func (e *Eng) segElem(st *State, base, i *Term) *Term {
	v, ok := st.store[e.cell("seg", base)]
	if !ok {
		return nil
	}
	x, ok := i.intConst()
	if !ok {
		return nil
	}
	known := true
	for k := len(v.args) - 3; k >= 0; k -= 3 {
		l, ok1 := v.args[k].intConst()
		h, ok2 := v.args[k+1].intConst()
		if !ok1 || !ok2 {
			known = false
			if ok1 && x.Cmp(l) < 0 {
				known = true
				continue
			}
			return nil
		}
		if x.Cmp(l) < 0 || x.Cmp(h) >= 0 {
			continue
		}
		ops, ok := e.wops(v.args[k+2], nil, 0)
		if !ok {
			return nil
		}
		bs, ok := e.bytesOfOps(ops)
		if !ok {
			return nil
		}
		n := int(new(big.Int).Sub(x, l).Int64())
		if len(bs) == 1 && bs[0].blob {
			return e.in.Elem(bs[0].val, e.in.Int(int64(n)), types.Typ[types.Uint8])
		}
		if n >= len(bs) || bs[n].blob {
			return nil
		}
		if bs[n].val == nil {
			return e.in.Int(bs[n].c)
		}
		if scalarWidth(bs[n].val.typ) == 1 {
			return bs[n].val
		}
		return e.in.mk(Term{op: OpCall, str: "byteat", args: []*Term{bs[n].val, e.in.Int(int64(bs[n].idx))}, typ: types.Typ[types.Uint8]})
	}
	if _, z := st.store[e.cell("segz", base)]; known && z {
		return e.in.Int(0)
	}
	return nil
}

// segBytes assembles the segments when they cover the whole array from 0 to its length, in order and
// without a gap or overlap; nil otherwise.
func (e *Eng) segBytes(st *State, base *Term) *Term {
	v, ok := st.store[e.cell("seg", base)]
	if !ok {
		return nil
	}
	r := e.empty()
	at := e.in.Int(0)
	end := e.in.Len(base)
	used := 0
	for at != end {
		found := false
		for i := 0; i+2 < len(v.args); i += 3 {
			if v.args[i] == at && v.args[i+1] != at {
				r = e.concat(r, v.args[i+2])
				at = v.args[i+1]
				found = true
				used++
				break
			}
		}
		if !found {
			// bytes never written are zero
			if _, z := st.store[e.cell("segz", base)]; !z {
				return nil
			}
			next := end
			for i := 0; i+2 < len(v.args); i += 3 {
				a, ok1 := v.args[i].intConst()
				n, ok2 := next.intConst()
				c, ok3 := at.intConst()
				if ok1 && ok3 && a.Cmp(c) > 0 && (!ok2 || a.Cmp(n) < 0) {
					next = v.args[i]
				}
			}
			a, ok1 := at.intConst()
			n, ok2 := next.intConst()
			if !ok1 || !ok2 || n.Cmp(a) <= 0 || n.Cmp(new(big.Int).Add(a, big.NewInt(256))) > 0 {
				return nil
			}
			for k := new(big.Int).Set(a); k.Cmp(n) < 0; k.Add(k, bigOne) {
				r = e.concat(r, e.w(e.empty(), "raw1", e.in.Int(0)))
			}
			at = next
		}
	}
	if used != len(v.args)/3 {
		return nil
	}
	return r
}

func (e *Eng) region3(b *Term) (base, lo, hi *Term) {
	b = unIface(b)
	lo, hi = e.in.Int(0), nil
	if b.op == OpSlice && b.args[0].op == OpSlice {
		// a part of a part
		bb, l0, h0 := e.region3(b.args[0])
		lo, hi = l0, h0
		if !b.args[1].isNil() {
			lo = e.in.Add(l0, b.args[1])
		}
		if !b.args[2].isNil() {
			hi = e.in.Add(l0, b.args[2])
		}
		return bb, lo, hi
	}
	if b.op == OpSlice {
		base = b.args[0]
		if !b.args[1].isNil() {
			lo = b.args[1]
		}
		if !b.args[2].isNil() {
			hi = b.args[2]
		}
	} else {
		base = b
	}
	if hi == nil {
		hi = e.in.Len(base)
	}
	return
}

// stream models the calls of the standard library that read and write bytes. handled=false: not one of them.
func (fr *frame) stream(b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *State) (outs []Out, handled bool) {
	e := fr.e
	one := func(ts ...*Term) ([]Out, bool) { return []Out{{res: ts, st: st}}, true }
	nilT := e.in.Nil()
	newErr := func(kind string) *Term {
		return e.in.mk(Term{op: OpCall, str: "readerr:" + kind, uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: types.Universe.Lookup("error").Type()})
	}
	// read: success and failure outcome of a read of one item
	read := func(r *Term, kind string, extra *Term, typ types.Type, deliver func(s *State, v *Term) []*Term, fail func(s *State) []*Term, err *Term) ([]Out, bool) {
		r = unIface(r)
		pos := e.getCell(st, "r", r)
		as := []*Term{pos}
		if extra != nil {
			as = append(as, extra)
		}
		np := e.in.mk(Term{op: OpCall, str: "r:" + kind, args: as})
		v := e.in.mk(Term{op: OpCall, str: "rd", args: []*Term{np}, typ: typ})
		ok := st.clone()
		ok.store[e.cell("r", r)] = np
		bad := st.clone()
		atEnd := pos.op == OpCall && pos.str == "r:eof"
		switch {
		case kind == "raw1" && atEnd: // still at the end
		case kind == "raw1": // a failed read of a byte leaves the reader at its end
			bad.store[e.cell("r", r)] = e.in.mk(Term{op: OpCall, str: "r:eof", args: []*Term{pos}})
		default:
			bad.store[e.cell("r", r)] = e.in.mk(Term{op: OpCall, str: "r:fail", args: []*Term{pos}})
		}
		bad.facts.add(e.in.fact(Fact{kind: "EV", name: "readfail", args: []*Term{np}, pos: in.Pos()}))
		if err == nil {
			err = newErr(kind)
		}
		bad.facts.add(e.eqFact(err, nilT, false))
		o1 := Out{res: append(deliver(ok, v), nilT), st: ok}
		o2 := Out{res: append(fail(bad), err), st: bad}
		if kind == "raw1" && atEnd {
			return []Out{o2}, true
		}
		return []Out{o1, o2}, true
	}
	switch name {
	case "bytes.NewReader", "strings.NewReader":
		src := args[0]
		o := e.in.mk(Term{op: OpObj, str: "heap", uid: fr.iuid(b, in) + "@reader", loops: fr.activeAt(b)})
		if e.readers == nil {
			e.readers = map[*Term][]*Term{}
		}
		e.readers[o] = append(e.readers[o], e.view(st, src))
		st.store[e.cell("r", o)] = e.in.mk(Term{op: OpCall, str: "r:start", args: []*Term{e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.bytesOf(st, src)}})}})
		return one(o)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := e.in.mk(Term{op: OpObj, str: "heap", uid: fr.iuid(b, in) + "@buffer", loops: fr.activeAt(b)})
		st.store[e.cell("w", o)] = e.bytesOf(st, args[0])
		return one(o)
	case "binary.ReadUvarint":
		return read(args[0], "uv", nil, types.Typ[types.Uint64], func(s *State, v *Term) []*Term { return []*Term{v} }, func(s *State) []*Term {
			return []*Term{e.in.mk(Term{op: OpFresh, str: "partial", uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: types.Typ[types.Uint64]})}
		}, nil)
	case "bytes.Reader.ReadByte", "bytes.Buffer.ReadByte", "io.ByteReader.ReadByte":
		eof := e.in.mk(Term{op: OpGlobal, str: "io.EOF"})
		if g := e.p.global("io", "EOF"); g != nil {
			eof = e.load(st, fr.val(st, g))
		}
		return read(args[0], "raw1", nil, types.Typ[types.Uint8], func(s *State, v *Term) []*Term { return []*Term{v} }, func(s *State) []*Term { return []*Term{e.in.Int(0)} }, eof)
	case "binary.Read":
		dst := unIface(args[2])
		var dt types.Type
		if mi, ok := c.Args[2].(*ssa.MakeInterface); ok {
			dt = mi.X.Type()
		} else if args[2].op == OpIface {
			dt = args[2].typ
		}
		if dt == nil {
			return nil, false
		}
		if p, ok := dt.Underlying().(*types.Pointer); ok {
			el := p.Elem()
			if sl, ok := el.Underlying().(*types.Slice); ok { // pointer to a slice: fills it
				cur := dst
				if isPlace(dst) {
					cur = e.load(st, dst)
				}
				return fr.readSlice(b, in, read, args[0], cur, sl, args[1])
			}
			if staticSize(el) < 0 {
				return nil, false
			}
			return read(args[0], rawKind(el, args[1]), nil, el, func(s *State, v *Term) []*Term {
				fr.storeTo(s, dst, v, b, in)
				return nil
			}, func(s *State) []*Term { return nil }, nil)
		}
		if sl, ok := dt.Underlying().(*types.Slice); ok {
			return fr.readSlice(b, in, read, args[0], dst, sl, args[1])
		}
		return nil, false
	case "rand.Read": // a full read of the system's random source
		f := c.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "crypto/rand" {
			return nil, false
		}
		g := f.Pkg.Var("Reader")
		return fr.stream(b, in, c, "io.ReadFull", []*Term{e.load(st, fr.val(st, g)), args[0]}, st)
	case "io.ReadFull":
		base, lo, hi := e.region3(args[1])
		n := e.in.Sub(hi, lo)
		kind := "var"
		extra := n
		if k, ok := n.intConst(); ok {
			if k.Sign() == 0 {
				return one(n, nilT)
			}
			kind, extra = "raw"+k.String(), nil
		}
		return read(args[0], kind, extra, types.NewSlice(types.Typ[types.Uint8]), func(s *State, v *Term) []*Term {
			full := isZeroInt(lo) && hi == e.in.Len(base)
			if full && isPlace(base) {
				fr.storeTo(s, base, e.in.mk(Term{op: OpCall, str: "rd", args: v.args, typ: base.typ}), b, in)
			} else {
				fr.filled(s, base, lo, hi, e.w(e.empty(), "bytes", v), b, in)
			}
			return []*Term{n}
		}, func(s *State) []*Term {
			return []*Term{e.in.mk(Term{op: OpFresh, str: "partial", uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: types.Typ[types.Int]})}
		}, nil)
	case "io.CopyN":
		n := args[2]
		for n.op == OpConv && scalarWidth(n.typ) >= 8 {
			n = n.args[0]
		}
		dst := e.cell("w", unIface(args[0]))
		return read(args[1], "var", n, types.NewSlice(types.Typ[types.Uint8]), func(s *State, v *Term) []*Term {
			s.store[dst] = e.writeBytes(s, e.getCell(s, "w", unIface(args[0])), v)
			return []*Term{n}
		}, func(s *State) []*Term {
			part := e.in.mk(Term{op: OpFresh, str: "partial", uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: types.Typ[types.Int64]})
			s.store[dst] = e.w(e.empty(), "bytes", part)
			return []*Term{part}
		}, nil)
	case "bytes.Reader.Len":
		return one(e.in.mk(Term{op: OpCall, str: "remaining", args: []*Term{e.getCell(st, "r", unIface(args[0]))}, typ: types.Typ[types.Int]}))
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString", "hash.Hash.Write", "io.Writer.Write":
		w := unIface(args[0])
		k := e.cell("w", w)
		st.store[k] = e.writeBytes(st, e.getCell(st, "w", w), args[1])
		return one(e.in.Len(e.view(st, args[1])), nilT)
	case "sha3.NewLegacyKeccak256":
		h := e.in.mk(Term{op: OpFresh, str: "keccak256", uid: fr.iuid(b, in), loops: fr.activeAt(b), typ: c.Signature().Results().At(0).Type()})
		st.store[e.cell("w", h)] = e.empty()
		return one(h)
	case "hash.Hash.Sum":
		if h := unIface(args[0]); h.op == OpFresh && h.str == "keccak256" && args[1].isNil() {
			return one(e.in.mk(Term{op: OpCall, str: "keccak256", args: []*Term{e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.getCell(st, "w", h)}, typ: types.NewSlice(types.Typ[types.Uint8])})}, typ: types.NewSlice(types.Typ[types.Uint8])}))
		}
		return nil, false
	case "hash.Hash.Reset":
		if h := unIface(args[0]); h.op == OpFresh && h.str == "keccak256" {
			st.store[e.cell("w", h)] = e.empty()
			return one()
		}
		return nil, false
	case "bytes.Buffer.WriteByte":
		w := unIface(args[0])
		st.store[e.cell("w", w)] = e.concat(e.getCell(st, "w", w), e.w(e.empty(), "raw1", args[1]))
		return one(nilT)
	case "bytes.Buffer.Bytes", "bytes.Buffer.String":
		return one(e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.getCell(st, "w", unIface(args[0]))}, typ: types.NewSlice(types.Typ[types.Uint8])}))
	case "bytes.Buffer.Len":
		return one(e.in.Len(e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.getCell(st, "w", unIface(args[0]))}, typ: types.NewSlice(types.Typ[types.Uint8])})))
	case "bytes.Buffer.Reset":
		st.store[e.cell("w", unIface(args[0]))] = e.empty()
		return one()
	case "bytes.Buffer.Grow":
		return one()
	case "binary.Write":
		var dt types.Type
		if mi, ok := c.Args[2].(*ssa.MakeInterface); ok {
			dt = mi.X.Type()
		} else if args[2].op == OpIface {
			dt = args[2].typ
		}
		if dt == nil {
			return nil, false
		}
		v := unIface(args[2])
		if p, ok := dt.Underlying().(*types.Pointer); ok {
			dt = p.Elem()
			v = e.view(st, v)
		}
		w := unIface(args[0])
		k := e.cell("w", w)
		if sl, ok := dt.Underlying().(*types.Slice); ok {
			if !isByteType(sl.Elem()) {
				return nil, false
			}
			st.store[k] = e.writeBytes(st, e.getCell(st, "w", w), v)
			return one(nilT)
		}
		if staticSize(dt) < 0 {
			return nil, false
		}
		st.store[k] = e.concat(e.getCell(st, "w", w), e.rawContent(v, dt, args[1], 0))
		return one(nilT)
	case "binary.PutUvarint":
		b0, lo, _ := e.region3(args[0])
		x := args[1]
		content := e.w(e.empty(), "uv", x)
		n := e.in.mk(Term{op: OpCall, str: "uvlen", args: []*Term{x}, typ: types.Typ[types.Int]})
		if isZeroInt(lo) {
			st.store[e.cell("b", b0)] = content
		}
		e.addSeg(st, b0, lo, e.in.Add(lo, n), content)
		return one(n)
	case "binary.AppendUvarint":
		return one(e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.concat(e.bytesOf(st, args[0]), e.w(e.empty(), "uv", args[1]))}, typ: types.NewSlice(types.Typ[types.Uint8])}))
	}
	for _, o := range [][2]string{{"littleEndian", "le"}, {"bigEndian", "be"}} {
		if !strings.HasPrefix(name, "binary."+o[0]+".") {
			continue
		}
		m := name[len("binary."+o[0]+"."):]
		for _, wd := range []int64{16, 32, 64} {
			k := fmt.Sprintf("raw%d%s", wd/8, o[1])
			switch m {
			case fmt.Sprintf("PutUint%d", wd):
				base, lo, _ := e.region3(args[1])
				fr.filled(st, base, lo, e.in.Add(lo, e.in.Int(wd/8)), e.w(e.empty(), k, args[2]), b, in)
				return one()
			case fmt.Sprintf("AppendUint%d", wd):
				return one(e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.concat(e.bytesOf(st, args[1]), e.w(e.empty(), k, args[2]))}, typ: types.NewSlice(types.Typ[types.Uint8])}))
			case fmt.Sprintf("Uint%d", wd):
				base, lo, _ := e.region3(args[1])
				v := e.viewBytes(st, base)
				if q, ok := e.byteSeq(st, args[1]); ok && e.cfg.Unroll && len(q) >= int(wd/8) {
					v, lo = e.in.mk(Term{op: OpCall, str: "byteseq", args: q, typ: args[1].typ}), e.in.Int(0)
				} else if c := e.segBytes(st, base); c != nil {
					v = e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{c}, typ: types.NewSlice(types.Typ[types.Uint8])})
				}
				return one(e.in.mk(Term{op: OpCall, str: "get" + k, args: []*Term{v, lo}, typ: map[int64]types.Type{16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[wd]}))
			}
		}
	}
	return nil, false
}

// filled: part of a byte array was overwritten; what is known of the rest stays known.
func (fr *frame) filled(st *State, base, lo, hi, content *Term, b *ssa.BasicBlock, in ssa.Instruction) {
	e := fr.e
	e.addSeg(st, base, lo, hi, content)
	if !isPlace(base) {
		st.ver[elemKey(base)] = e.in.version("rf"+fr.iuid(b, in), fr.activeAt(b))
		return
	}
	seg := st.store[e.cell("seg", base)]
	z, isZ := st.store[e.cell("segz", base)]
	fr.havocValue(st, base, b, in)
	st.store[e.cell("seg", base)] = seg
	if isZ {
		st.store[e.cell("segz", base)] = z
	}
}

func (fr *frame) havocElems(st *State, base *Term, b *ssa.BasicBlock, in ssa.Instruction) {
	st.ver[elemKey(base)] = fr.e.in.version("pe"+fr.iuid(b, in), fr.activeAt(b))
}

type readFn func(r *Term, kind string, extra *Term, typ types.Type, deliver func(s *State, v *Term) []*Term, fail func(s *State) []*Term, err *Term) ([]Out, bool)

// readSlice: encoding/binary.Read into a byte slice fills exactly its length.
func (fr *frame) readSlice(b *ssa.BasicBlock, in ssa.Instruction, read readFn, r, sl *Term, t *types.Slice, order *Term) ([]Out, bool) {
	e := fr.e
	n := staticSize(t.Elem())
	if n < 0 {
		return nil, false
	}
	base, lo, hi := e.region3(sl)
	kind, extra := "var", e.in.Len(sl)
	if k, ok := e.in.Sub(hi, lo).intConst(); ok && n == 1 {
		kind, extra = "raw"+k.String(), nil
	}
	return read(r, kind, extra, t, func(s *State, v *Term) []*Term {
		if isPlace(base) {
			if isZeroInt(lo) && hi == e.in.Len(base) {
				fr.storeTo(s, base, e.in.mk(Term{op: OpCall, str: "rd", args: v.args, typ: base.typ}), b, in)
			} else {
				fr.filled(s, base, lo, hi, e.w(e.empty(), "bytes", v), b, in)
			}
			return nil
		}
		e.addSeg(s, base, lo, hi, e.w(e.empty(), "bytes", v))
		s.store[e.cell("b", base)] = e.w(e.empty(), "bytes", v)
		s.ver[elemKey(base)] = e.in.version("rs"+fr.iuid(b, in), fr.activeAt(b))
		return nil
	}, func(s *State) []*Term { return nil }, nil)
}

// ---- decompilation ----------------------------------------------------------------------------

// wops lists the operations a content was built from.
func (e *Eng) wops(t *Term, stop *Term, d int) ([]wop, bool) {
	if t == stop {
		return nil, true
	}
	if d > 200 {
		return nil, false
	}
	if info := e.lvs[t]; info != nil {
		pre, ok := e.wops(info.init, stop, d+1)
		if !ok {
			return nil, false
		}
		star := wop{kind: "star", lv: t}
		for _, s := range info.steps {
			ops, ok := e.wops(s.val, t, d+1)
			if !ok {
				return nil, false
			}
			star.alts = append(star.alts, walt{ops, s.st})
		}
		return append(pre, star), true
	}
	if t.op != OpCall {
		return nil, false
	}
	switch {
	case t.str == "w:empty":
		return nil, stop == nil
	case t.str == "w:cat":
		a, ok := e.wops(t.args[0], stop, d+1)
		if !ok {
			return nil, false
		}
		b, ok := e.wops(t.args[1], nil, d+1)
		return append(a, b...), ok
	case strings.HasPrefix(t.str, "w:") && len(t.args) == 2:
		a, ok := e.wops(t.args[0], stop, d+1)
		if t.args[0].op == OpCall && t.args[0].str == "w:empty" {
			a, ok = nil, true
		}
		return append(a, wop{kind: t.str[2:], val: t.args[1]}), ok
	case t.str == "w:start" || t.str == "r:start":
		return nil, stop == nil
	case t.str == "r:fail":
		return nil, false
	case strings.HasPrefix(t.str, "r:"):
		a, ok := e.wops(t.args[0], stop, d+1)
		o := wop{kind: t.str[2:], val: t}
		return append(a, o), ok
	}
	return nil, false
}

func opsString(ops []wop) string {
	var ss []string
	for _, o := range ops {
		if o.kind == "star" {
			var as []string
			for _, a := range o.alts {
				as = append(as, opsString(a.ops))
			}
			ss = append(ss, "("+strings.Join(as, " | ")+")*")
			continue
		}
		v := ""
		if o.val != nil && !(o.val.op == OpCall && strings.HasPrefix(o.val.str, "r:")) {
			v = " " + o.val.String()
		}
		ss = append(ss, o.kind+v)
	}
	return strings.Join(ss, "; ")
}

// streamCopy: a copy whose extent is known.
func (fr *frame) streamCopy(b *ssa.BasicBlock, in ssa.Instruction, args []*Term, st *State) bool {
	e := fr.e
	base, lo, hi := e.region3(args[0])
	sb, slo, shi := e.region3(args[1])
	st0, sc := e.in.split(slo)
	n := e.in.Add(e.in.Sub(shi, e.in.mkSum(st0, new(big.Int))), e.in.BigInt(new(big.Int).Neg(sc)))
	d := e.in.Sub(hi, lo)
	if e.in.Sub(shi, slo) == d {
		n = d
	}
	if n != d {
		// only as much as fits
		if e.decide(st, e.in.cmpFact(token.LEQ, d, n, true, true)) != yes {
			return false
		}
		n, shi = d, e.in.Add(slo, d)
		args = []*Term{args[0], e.in.mk(Term{op: OpSlice, args: []*Term{args[1], e.in.Nil(), d}, typ: args[1].typ})}
	}
	full := isZeroInt(lo) && hi == e.in.Len(base)
	sfull := isZeroInt(slo) && shi == e.in.Len(sb)
	src := e.viewBytes(st, sb)
	if full && sfull && isPlace(base) && src.typ != nil && base.typ != nil && types.Identical(src.typ.Underlying(), base.typ.Underlying()) {
		fr.storeTo(st, base, src, b, in)
		return true
	}
	content := e.bytesOf(st, args[1])
	e.addSeg(st, base, lo, hi, content)
	if isPlace(base) {
		seg, z := st.store[e.cell("seg", base)], st.store[e.cell("segz", base)]
		fr.storeTo(st, base, e.in.mk(Term{op: OpCall, str: "copied", args: []*Term{e.in.mk(Term{op: OpSlice, args: []*Term{src, slo, shi}}), lo, hi}, typ: base.typ}), b, in)
		if seg != nil {
			st.store[e.cell("seg", base)] = seg
		}
		if z != nil {
			st.store[e.cell("segz", base)] = z
		}
	} else {
		fr.havocElems(st, base, b, in)
	}
	return true
}

func (p *Prog) global(pkg, name string) ssa.Value {
	sp := p.SSA.ImportedPackage(pkg)
	if sp == nil {
		return nil
	}
	if g, ok := sp.Members[name].(*ssa.Global); ok {
		return g
	}
	return nil
}

// wroteBytes keeps the byte segments of an array in step with an ordinary store.
func (fr *frame) wroteBytes(st *State, p, v *Term) {
	e := fr.e
	if p.op == OpIAddr && p.typ != nil && isByteType(p.typ) {
		base, i := p.args[0], p.args[1]
		delete(st.store, e.cell("b", base))
		e.addSeg(st, base, i, e.in.Add(i, e.in.Int(1)), e.w(e.empty(), "raw1", v))
		return
	}
	for q := p; ; q = q.args[0] {
		delete(st.store, e.cell("b", q))
		delete(st.store, e.cell("seg", q))
		delete(st.store, e.cell("segz", q))
		if q.op != OpIAddr && q.op != OpFAddr {
			break
		}
	}
}
