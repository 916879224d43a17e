package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) val(st *State, v ssa.Value) *Term {
	e := fr.e
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.in.Zero(x.Type())
		}
		if isInteger(x.Type()) {
			return e.in.Const(constant.ToInt(x.Value), nil)
		}
		return e.in.Const(x.Value, nil)
	case *ssa.Global:
		n := x.Name()
		if x.Pkg != nil {
			n = x.Pkg.Pkg.Name() + "." + n
		}
		uid := fmt.Sprintf("%p", x)
		globalTerms[uid] = x
		return e.in.mk(Term{op: OpGlobal, str: n, uid: uid, typ: x.Type()})
	case *ssa.Function:
		return e.in.mk(Term{op: OpFunc, str: fname(x), fn: x})
	case *ssa.Builtin:
		return e.in.mk(Term{op: OpFunc, str: "builtin." + x.Name()})
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	// pruned or unreachable: an unknown value
	return e.in.mk(Term{op: OpFresh, str: "undef:" + v.Name(), uid: fr.ctx + fname(fr.fn), typ: v.Type(), loops: fr.active})
}

func (fr *frame) iuid(b *ssa.BasicBlock, i ssa.Instruction) string {
	n := 0
	for k, x := range b.Instrs {
		if x == i {
			n = k
			break
		}
	}
	return fmt.Sprintf("%s/%s:%d.%d", fr.ctx, fname(fr.fn), b.Index, n)
}

// ---- abstract store --------------------------------------------------------------------------

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structName(t types.Type) string {
	t = derefType(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return typeStr(t)
}

func fieldName(st *types.Struct, i int) string {
	f := st.Field(i)
	if f.Embedded() {
		return "~" + f.Name()
	}
	return f.Name()
}

// load reads the content of a place; a non-place pointer is its own content (unified).
func (e *Eng) load(st *State, p *Term) *Term {
	if !isPlace(p) {
		return p
	}
	base := e.loadBase(st, p)
	// overlay stored descendants
	var kids []*Term
	for k := range st.store {
		if k != p && (k.op == OpFAddr || k.op == OpIAddr) && isDesc(k, p) {
			kids = append(kids, k)
		}
	}
	if len(kids) == 0 {
		return base
	}
	direct := map[*Term]bool{}
	var ds []*Term
	for _, k := range kids {
		d := k
		for d.args[0] != p {
			d = d.args[0]
		}
		if !direct[d] {
			direct[d] = true
			ds = append(ds, d)
		}
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].id < ds[j].id })
	var names []string
	args := []*Term{base}
	for _, d := range ds {
		if d.op == OpFAddr {
			names = append(names, d.str)
		} else {
			if c, ok := d.args[1].intConst(); ok {
				names = append(names, fmt.Sprintf("[=%s]", c))
			} else {
				names = append(names, fmt.Sprintf("[%d]", d.args[1].id))
			}
		}
		args = append(args, e.load(st, d))
	}
	var ty types.Type = types.Typ[types.Invalid]
	if p.typ != nil {
		ty = p.typ
	}
	return e.in.mk(Term{op: OpComp, str: strings.Join(names, ","), args: args, typ: ty})
}

func isDesc(k, p *Term) bool {
	for k.op == OpFAddr || k.op == OpIAddr {
		k = k.args[0]
		if k == p {
			return true
		}
	}
	return false
}

func (e *Eng) loadBase(st *State, p *Term) *Term {
	if v, ok := st.store[p]; ok {
		return v
	}
	switch p.op {
	case OpObj:
		return p
	case OpGlobal:
		return p
	case OpFAddr:
		b := p.args[0]
		var bv *Term
		if isPlace(b) {
			bv = e.loadBase(st, b)
		} else {
			bv = b
		}
		return e.fieldOf(st, bv, p.str, p.typ, p.uid)
	case OpIAddr:
		b := p.args[0]
		if e.cfg.Streams {
			if v := e.segElem(st, b, p.args[1]); v != nil {
				return v
			}
		}
		var bv *Term
		switch {
		case !isPlace(b):
			bv = b
		case e.sibling(st, p):
			bv = e.load(st, b)
		default:
			bv = e.loadBase(st, b)
		}
		v := e.in.Elem(bv, p.args[1], p.typ)
		if v.op == OpElem {
			if ver := st.ver[elemKey(b)]; ver != 0 {
				v = e.in.mk(Term{op: OpElem, args: v.args, typ: p.typ, ver: ver})
			}
		}
		return v
	}
	return p
}

// sibling: an element was stored that may be this one.
func (e *Eng) sibling(st *State, p *Term) bool {
	for k := range st.store {
		if k != p && k.op == OpIAddr && k.args[0] == p.args[0] && mayAlias(k.args[1], p.args[1]) &&
			e.decide(st, e.equ(k.args[1], p.args[1])) != no {
			return true
		}
	}
	return false
}

func elemKey(b *Term) string { return fmt.Sprintf("el:%d", b.id) }

func (e *Eng) fieldOf(st *State, bv *Term, name string, ft types.Type, sname string) *Term {
	return e.in.Field(bv, name, ft, st.ver[sname+"."+name])
}

func (fr *frame) dropChildren(st *State, p *Term) {
	for k := range st.store {
		if k != p && isDesc(k, p) {
			delete(st.store, k)
		}
	}
}

func (e *Eng) bumpElem(fr *frame, st *State, base *Term, b *ssa.BasicBlock) {
	st.ver[elemKey(base)] = e.in.version(fmt.Sprintf("e%s/%s#%d:%d", fr.ctx, fname(fr.fn), bidx(b), base.id), fr.activeAtOpt(b))
}

// store writes through a place.
func (fr *frame) storeTo(st *State, p, v *Term, b *ssa.BasicBlock, instr ssa.Instruction) {
	e := fr.e
	if !isPlace(p) {
		// a pointer value of unknown identity: its type's contents change
		fr.havocValue(st, p, b, instr)
		return
	}
	root := placeRoot(p)
	local := root.op == OpObj
	if e.cfg.Streams {
		defer fr.wroteBytes(st, p, v)
	}
	switch p.op {
	case OpFAddr:
		if !local {
			for k := range st.store {
				if k != p && k.op == OpFAddr && k.str == p.str && k.uid == p.uid && placeRoot(k).op != OpObj {
					if kr := placeRoot(k); kr.op == OpMake && root.op == OpMake && kr != root {
						continue // two allocations
					}
					delete(st.store, k)
				}
			}
			st.ver[p.uid+"."+p.str] = e.in.version("f"+fr.iuid(b, instr), fr.activeAtOpt(b))
		}
	case OpIAddr:
		base := p.args[0]
		for k := range st.store {
			if k != p && k.op == OpIAddr && k.args[0] == base && mayAlias(k.args[1], p.args[1]) {
				delete(st.store, k)
			}
		}
		if _, isC := p.args[1].intConst(); !isC {
			e.bumpElem2(fr, st, base, b, instr)
		}
	}
	fr.dropChildren(st, p)
	st.store[p] = v
}

func mayAlias(i, j *Term) bool {
	_, a := i.intConst()
	_, b := j.intConst()
	return !(a && b)
}

func (e *Eng) bumpElem2(fr *frame, st *State, base *Term, b *ssa.BasicBlock, instr ssa.Instruction) {
	st.ver[elemKey(base)] = e.in.version("e"+fr.iuid(b, instr), fr.activeAtOpt(b))
}

// havocValue: an unknown write through pointer/slice value x.
func (fr *frame) havocValue(st *State, x *Term, b *ssa.BasicBlock, instr ssa.Instruction) {
	e := fr.e
	act := fr.activeAtOpt(b)
	uid := fr.iuid(b, instr)
	if isPlace(x) {
		if x.op == OpGlobal {
			return
		}
		v := e.in.mk(Term{op: OpFresh, str: "havoc", uid: fmt.Sprintf("%s@%d", uid, x.id), loops: act, typ: derefType(x.typ)})
		fr.storeTo(st, x, v, b, instr)
		return
	}
	if x.typ == nil {
		return
	}
	switch t := x.typ.Underlying().(type) {
	case *types.Pointer:
		if s, ok := t.Elem().Underlying().(*types.Struct); ok {
			fr.havocStruct(st, structName(t.Elem()), s, uid, act, 0)
			for k := range st.store {
				if isDesc(k, x) {
					delete(st.store, k)
				}
			}
		}
	case *types.Slice:
		st.ver[elemKey(x)] = e.in.version("h"+uid, act)
		if e.cfg.Streams {
			delete(st.store, e.cell("seg", x))
			st.store[e.cell("b", x)] = e.w(e.empty(), "bytes", e.in.mk(Term{op: OpFresh, str: "written", uid: uid, loops: act, typ: x.typ}))
		}
		for k := range st.store {
			if k.op == OpIAddr && k.args[0] == x {
				delete(st.store, k)
			}
		}
	}
}

func (fr *frame) havocStruct(st *State, name string, s *types.Struct, uid string, act []int, d int) {
	for i := 0; i < s.NumFields(); i++ {
		n := fieldName(s, i)
		st.ver[name+"."+n] = fr.e.in.version("s"+uid+name+n, act)
		if s.Field(i).Embedded() && d < 4 {
			if u, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
				fr.havocStruct(st, structName(s.Field(i).Type()), u, uid, act, d+1)
			}
		}
	}
}

// ---- conditions ------------------------------------------------------------------------------

func (e *Eng) toFact(t *Term, pol bool) *Fact {
	switch t.op {
	case OpUn:
		if t.str == "!" {
			return e.toFact(t.args[0], !pol)
		}
	case OpBin:
		s := strings.TrimSuffix(t.str, "i")
		integer := strings.HasSuffix(t.str, "i")
		switch s {
		case "ovf":
			if pol {
				return e.in.fact(Fact{kind: "LE", b: t.args[0], c: new(big.Int).Neg(new(big.Int).Add(maxU64, bigOne))})
			}
			return e.in.fact(Fact{kind: "LE", a: t.args[0], c: maxU64})
		case "==", "!=", "<", "<=", ">", ">=":
			op := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[s]
			return e.in.cmpFact(op, t.args[0], t.args[1], pol, integer)
		}
	}
	k := "T"
	if !pol {
		k = "F"
	}
	return e.in.fact(Fact{kind: k, a: t})
}

func (e *Eng) decideTerm(st *State, t *Term) tri {
	if b, ok := t.isBoolConst(); ok {
		if b {
			return yes
		}
		return no
	}
	return e.decide(st, e.toFact(t, true))
}

func (e *Eng) assumeTerm(st *State, t *Term, pol bool) bool {
	if b, ok := t.isBoolConst(); ok {
		return b == pol
	}
	return e.assume(st, e.toFact(t, pol))
}

// assumeFields: equal records have equal fields.
func (e *Eng) assumeFields(st *State, f *Fact) {
	ty := f.a.typ
	if f.a.op != OpComp {
		ty = f.b.typ
	}
	if ty == nil || f.a.op != OpComp && f.b.op != OpComp {
		return
	}
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		n, ft := s.Field(i).Name(), s.Field(i).Type()
		a, b := e.in.Field(f.a, n, ft, 0), e.in.Field(f.b, n, ft, 0)
		if isInteger(ft) {
			st.facts.add(e.equ(a, b))
		} else {
			st.facts.add(e.eqFact(a, b, true))
		}
	}
}

// assume adds a fact; false when it contradicts the state.
func (e *Eng) assume(st *State, f *Fact) bool {
	switch e.decide(st, f) {
	case no:
		return false
	case yes:
		st.facts.add(f)
		return true
	}
	st.facts.add(f)
	// strengthen a non-strict bound with a disequality
	if f.kind == "NE" && f.b == nil && f.a != nil {
		if l, ok := e.low(f.a); ok && l.Cmp(f.c) == 0 {
			st.facts.add(e.in.fact(Fact{kind: "LE", b: f.a, c: new(big.Int).Neg(new(big.Int).Add(f.c, bigOne))}))
		}
	}
	// a value bounded from above by its smallest possible value has that value
	if f.kind == "LE" && f.b == nil && f.a != nil {
		if l, ok := e.low(f.a); ok && l.Cmp(f.c) == 0 {
			st.facts.add(e.in.fact(Fact{kind: "EQ", a: f.a, c: f.c}))
		}
	}
	if f.kind == "EQ" && f.b == nil && f.a != nil && f.a.op == OpCall && f.a.str == "carry" && f.c.Sign() == 0 {
		st.facts.add(e.in.fact(Fact{kind: "LE", a: f.a.args[0], c: maxU64}))
	}
	if f.kind == "T" && f.a.op == OpCall && (f.a.str == "bytes.Equal" || f.a.str == "reflect.DeepEqual") {
		st.facts.add(e.eqFact(f.a.args[0], f.a.args[1], true))
	}
	if f.kind == "F" && f.a.op == OpCall && f.a.str == "bytes.Equal" {
		st.facts.add(e.eqFact(f.a.args[0], f.a.args[1], false))
	}
	if (f.kind == "EQ" || f.kind == "NE") && f.b == nil && f.a != nil && f.a.op == OpCall && f.a.str == "bytes.Compare" && f.c.Sign() == 0 {
		st.facts.add(e.eqFact(f.a.args[0], f.a.args[1], f.kind == "EQ"))
	}
	if f.kind == "EQ" && f.a != nil && f.b != nil && f.c.Sign() == 0 {
		e.assumeFields(st, f)
	}
	for _, g := range st.facts.list() {
		if g.kind == "IMP" && len(g.quant) == 0 && g.g == f {
			st.facts.add(g.f)
		}
	}
	return true
}

// ---- blocks ----------------------------------------------------------------------------------

func (fr *frame) block(b *ssa.BasicBlock, st *State, res [][]*State) {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range states {
				c := fr.val(s, x.Cond)
				for k, pol := range []bool{true, false} {
					n := s.clone()
					if fr.e.assumeTerm(n, c, pol) {
						res[k] = append(res[k], n)
					}
				}
			}
			return
		case *ssa.Jump:
			res[0] = append(res[0], states...)
			return
		case *ssa.Return:
			for _, s := range states {
				var r []*Term
				for _, v := range x.Results {
					r = append(r, fr.val(s, v))
				}
				if fr.rec {
					fr.e.record(&Obs{name: "return", args: r, st: s.clone(), fn: fr.fn, pos: x.Pos(), ctx: fr.ctx, depth: fr.depth, active: fr.activeAt(b)})
				}
				fr.outs[b.Index] = append(fr.outs[b.Index], Out{res: r, st: s, pos: x.Pos()})
			}
			return
		case *ssa.Panic:
			if fr.e.cfg.Hazards && fr.rec {
				for _, s := range states {
					fr.hazards(b, in, s)
				}
			}
			if fr.rec {
				for _, s := range states {
					fr.e.record(&Obs{name: "panic", args: []*Term{fr.val(s, x.X)}, st: s.clone(), fn: fr.fn, pos: x.Pos(), ctx: fr.ctx, depth: fr.depth})
				}
			}
			return
		}
		var next []*State
		for _, s := range states {
			next = append(next, fr.instr(b, in, s)...)
		}
		states = next
		if len(states) == 0 {
			return
		}
	}
}

func (e *Eng) record(o *Obs) { e.obs = append(e.obs, o) }

func (e *Eng) iface(t *Term, typ types.Type) *Term {
	if t.op == OpIface {
		return t
	}
	return e.in.mk(Term{op: OpIface, args: []*Term{t}, typ: typ})
}

func (e *Eng) isTerm(x *Term, typ types.Type) *Term {
	if x.op == OpIface {
		if _, ok := typ.Underlying().(*types.Interface); ok {
			if types.AssignableTo(x.typ, typ) {
				return e.in.Bool(true)
			}
		} else {
			return e.in.Bool(types.Identical(x.typ, typ))
		}
	}
	if x.isNil() {
		return e.in.Bool(false)
	}
	return e.in.mk(Term{op: OpIs, args: []*Term{x}, typ: typ})
}

func (e *Eng) asTerm(x *Term, typ types.Type) *Term {
	if x.op == OpIface && types.Identical(x.typ, typ) {
		return x.args[0]
	}
	if _, ok := typ.Underlying().(*types.Interface); ok && x.op == OpIface {
		return x
	}
	return e.in.mk(Term{op: OpAs, args: []*Term{x}, typ: typ})
}

func intBits(t types.Type) (bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed
	case types.Int16, types.Uint16:
		return 16, signed
	case types.Int32, types.Uint32:
		return 32, signed
	}
	return 64, signed
}

func fits(c *big.Int, t types.Type) bool {
	bits, signed := intBits(t)
	if signed {
		m := new(big.Int).Lsh(bigOne, uint(bits-1))
		return c.Cmp(m) < 0 && c.Cmp(new(big.Int).Neg(m)) >= 0
	}
	return c.Sign() >= 0 && c.BitLen() <= bits
}

func (e *Eng) convert(x *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		if c, ok := x.intConst(); ok {
			if fits(c, to) {
				return x
			}
			bits, signed := intBits(to)
			m := new(big.Int).And(new(big.Int).Add(c, new(big.Int).Lsh(bigOne, 128)), new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne))
			if signed && m.Bit(bits-1) == 1 {
				m.Sub(m, new(big.Int).Lsh(bigOne, uint(bits)))
			}
			return e.in.BigInt(m)
		}
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		lossless := (fs == ts && tb >= fb) || (!fs && ts && tb > fb)
		if fs && !ts && tb >= fb {
			if l, ok := e.low(x); ok && l.Sign() >= 0 {
				lossless = true
			}
		}
		if !fs && ts && tb == 64 && (x.op == OpLen || x.op == OpIter) {
			lossless = true
		}
		if lossless {
			return x
		}
		return e.in.mk(Term{op: OpConv, args: []*Term{x}, typ: to})
	}
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return x
	}
	_, fsl := fu.(*types.Slice)
	_, tsl := tu.(*types.Slice)
	fbas, fb := fu.(*types.Basic)
	tbas, tb := tu.(*types.Basic)
	if fsl && tb && tbas.Info()&types.IsString != 0 || tsl && fb && fbas.Info()&types.IsString != 0 {
		for _, t := range []types.Type{fu, tu} {
			if sl, ok := t.(*types.Slice); ok && !isByteType(sl.Elem()) { // characters, not bytes
				return e.in.mk(Term{op: OpCall, str: "characters", args: []*Term{x}, typ: to})
			}
		}
		return x
	}
	return e.in.mk(Term{op: OpConv, args: []*Term{x}, typ: to})
}

func (fr *frame) set(st *State, v ssa.Value, t *Term) []*State {
	st.env[v] = t
	return []*State{st}
}

func (fr *frame) instr(b *ssa.BasicBlock, in ssa.Instruction, st *State) []*State {
	e := fr.e
	if e.cfg.Hazards && fr.rec {
		fr.hazards(b, in, st)
	}
	act := fr.activeAt(b)
	fresh := func(kind string, typ types.Type) *Term {
		return e.in.mk(Term{op: OpFresh, str: kind, uid: fr.iuid(b, in), loops: act, typ: typ})
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		kind := "stack"
		if x.Heap {
			kind = "heap"
		}
		o := e.in.mk(Term{op: OpObj, str: kind, uid: fr.iuid(b, in), loops: act, typ: x.Type().(*types.Pointer).Elem()})
		if o.fn == nil {
			o.pos = x.Pos()
		}
		for k := range st.store {
			if k == o || isDesc(k, o) || k.op == OpCall && k.args[0] == o {
				delete(st.store, k)
			}
		}
		st.store[o] = e.in.Zero(x.Type().(*types.Pointer).Elem())
		return fr.set(st, x, o)
	case *ssa.BinOp:
		return fr.set(st, x, fr.binop(st, x))
	case *ssa.UnOp:
		y := fr.val(st, x.X)
		switch x.Op {
		case token.MUL:
			v := e.load(st, y)
			if a, ok := x.Type().Underlying().(*types.Array); ok && e.cfg.Streams && isByteType(a.Elem()) {
				// the value of an array that was written piece by piece
				if c := e.segBytes(st, y); c != nil && len(st.store[e.cell("seg", y)].args) > 3 {
					v = e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{c}, typ: x.Type()})
				}
			}
			if fr.rec && e.cfg.TrackIdx {
				e.record(&Obs{name: "deref", args: []*Term{y}, st: st, fn: fr.fn, pos: x.Pos(), ctx: fr.ctx})
			}
			return fr.set(st, x, v)
		case token.NOT:
			if c, ok := y.isBoolConst(); ok {
				return fr.set(st, x, e.in.Bool(!c))
			}
			return fr.set(st, x, e.in.mk(Term{op: OpUn, str: "!", args: []*Term{y}, typ: x.Type()}))
		case token.ARROW:
			if x.CommaOk {
				return fr.set(st, x, e.in.mk(Term{op: OpTuple, args: []*Term{fresh("recv", nil), e.in.mk(Term{op: OpFresh, str: "recvok", uid: fr.iuid(b, in), loops: act, typ: types.Typ[types.Bool]})}}))
			}
			return fr.set(st, x, fresh("recv", x.Type()))
		}
		if c, ok := y.intConst(); ok && x.Op == token.SUB {
			return fr.set(st, x, e.in.BigInt(new(big.Int).Neg(c)))
		}
		return fr.set(st, x, e.in.mk(Term{op: OpUn, str: x.Op.String(), args: []*Term{y}, typ: x.Type()}))
	case *ssa.ChangeInterface:
		return fr.set(st, x, fr.val(st, x.X))
	case *ssa.ChangeType:
		return fr.set(st, x, fr.val(st, x.X))
	case *ssa.Convert:
		return fr.set(st, x, e.convert(fr.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		return fr.set(st, x, fr.val(st, x.X))
	case *ssa.MakeInterface:
		y := fr.val(st, x.X)
		return fr.set(st, x, e.iface(y, x.X.Type()))
	case *ssa.Extract:
		y := fr.val(st, x.Tuple)
		if y.op == OpTuple && x.Index < len(y.args) {
			return fr.set(st, x, y.args[x.Index])
		}
		return fr.set(st, x, e.in.mk(Term{op: OpExtract, str: fmt.Sprint(x.Index), args: []*Term{y}, typ: x.Type()}))
	case *ssa.Field:
		y := fr.val(st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		return fr.set(st, x, e.fieldOf(st, y, fieldName(s, x.Field), x.Type(), structName(x.X.Type())))
	case *ssa.FieldAddr:
		y := fr.val(st, x.X)
		s := derefType(x.X.Type()).Underlying().(*types.Struct)
		return fr.set(st, x, e.in.mk(Term{op: OpFAddr, str: fieldName(s, x.Field), uid: structName(x.X.Type()), args: []*Term{y}, typ: s.Field(x.Field).Type()}))
	case *ssa.Index:
		y := fr.val(st, x.X)
		i := fr.val(st, x.Index)
		return fr.set(st, x, e.in.Elem(y, i, x.Type()))
	case *ssa.IndexAddr:
		y := fr.val(st, x.X)
		i := fr.val(st, x.Index)
		if fr.rec && e.cfg.TrackIdx {
			e.record(&Obs{name: "index", args: []*Term{e.view(st, y), i}, st: st.clone(), fn: fr.fn, pos: x.Pos(), ctx: fr.ctx})
		}
		// an executed index proves the bound afterwards
		if y.op == OpSlice {
			if !y.args[1].isNil() {
				i = e.in.Add(y.args[1], i)
			}
			y = y.args[0]
		}
		el := x.Type().(*types.Pointer).Elem()
		return fr.set(st, x, e.in.mk(Term{op: OpIAddr, args: []*Term{y, i}, typ: el}))
	case *ssa.Lookup:
		y := fr.val(st, x.X)
		k := e.view(st, fr.val(st, x.Index))
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			ver := st.ver[elemKey(y)]
			has := e.in.mk(Term{op: OpHas, args: []*Term{y, k}, ver: ver, typ: types.Typ[types.Bool], loops: nil})
			get := e.in.mk(Term{op: OpGet, args: []*Term{y, k}, ver: ver, typ: m.Elem()})
			if c, hit := st.store[y]; hit && y.op == OpMake && c.op == OpArr {
				if _, isC := k.intConst(); isC {
					has, get = e.in.Bool(false), e.in.Zero(m.Elem())
					for i := 0; i+1 < len(c.args); i += 2 {
						if c.args[i] == k {
							has, get = e.in.Bool(true), c.args[i+1]
						}
					}
				}
			}
			if x.CommaOk {
				return fr.set(st, x, e.in.mk(Term{op: OpTuple, args: []*Term{get, has}}))
			}
			if isBool(m.Elem()) {
				return fr.set(st, x, has)
			}
			return fr.set(st, x, get)
		}
		return fr.set(st, x, e.in.Elem(y, k, x.Type()))
	case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
		v := in.(ssa.Value)
		t := Term{op: OpMake, str: typeStr(v.Type()), uid: fr.iuid(b, in), loops: act, typ: v.Type()}
		if ms, ok := in.(*ssa.MakeSlice); ok {
			ln := fr.val(st, ms.Len)
			t.args = []*Term{ln}
			if fr.rec && e.cfg.TrackIdx {
				e.record(&Obs{name: "make", args: []*Term{ln, fr.val(st, ms.Cap)}, st: st.clone(), fn: fr.fn, pos: ms.Pos(), ctx: fr.ctx})
			}
		}
		m := e.in.mk(t)
		if _, ok := in.(*ssa.MakeMap); ok {
			st.store[m] = e.in.mk(Term{op: OpArr})
			delete(st.ver, elemKey(m))
		}
		return fr.set(st, v, m)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, y := range x.Bindings {
			bs = append(bs, fr.val(st, y))
		}
		f := x.Fn.(*ssa.Function)
		return fr.set(st, x, e.in.mk(Term{op: OpClosure, str: fname(f), fn: f, args: bs}))
	case *ssa.MapUpdate:
		m := fr.val(st, x.Map)
		k := e.view(st, fr.val(st, x.Key))
		v := e.view(st, fr.val(st, x.Value))
		name := "put"
		bv, isConst := v.isBoolConst()
		if !isConst && isBool(x.Value.Type()) {
			bv = e.decide(st, e.in.fact(Fact{kind: "T", a: v})) == yes
			isConst = !bv // an entry that need not be true
		}
		if isConst && !bv {
			name = "putfalse"
		} else {
			has := e.in.mk(Term{op: OpHas, args: []*Term{m, k}, ver: st.ver[elemKey(m)], typ: types.Typ[types.Bool]})
			if e.decide(st, e.in.fact(Fact{kind: "F", a: has})) == yes {
				name = "putfresh"
			}
		}
		fr.event(b, st, name, []*Term{m, k, v}, x.Pos(), e.cfg.TrackSet)
		if name == "putfresh" {
			fr.event(b, st, "put", []*Term{m, k, v}, x.Pos(), false)
		}
		if c, ok := st.store[m]; ok && c.op == OpArr && m.op == OpMake {
			_, isC := k.intConst()
			if isC && len(c.args) < 64 {
				st.store[m] = e.in.mk(Term{op: OpArr, args: append(append([]*Term{}, c.args...), k, v)})
			} else {
				delete(st.store, m)
			}
		}
		st.ver[elemKey(m)] = e.in.version("m"+fr.iuid(b, in), act)
		return []*State{st}
	case *ssa.Store:
		p := fr.val(st, x.Addr)
		v := fr.val(st, x.Val)
		if !isPlace(p) {
			if sct, ok := x.Val.Type().Underlying().(*types.Struct); ok { // *p = v: each field
				for i := 0; i < sct.NumFields(); i++ {
					f := e.in.mk(Term{op: OpFAddr, str: fieldName(sct, i), uid: structName(x.Val.Type()), args: []*Term{p}, typ: sct.Field(i).Type()})
					w := e.in.Field(v, fieldName(sct, i), sct.Field(i).Type(), 0)
					fr.event(b, st, "set", []*Term{fr.placeName(f), w}, x.Pos(), e.cfg.TrackSet)
					fr.storeTo(st, f, w, b, in)
				}
				return []*State{st}
			}
			fr.event(b, st, "set", []*Term{p, v}, x.Pos(), e.cfg.TrackSet)
		}
		root := placeRoot(p)
		if root.op != OpObj && (p.op == OpFAddr || p.op == OpGlobal) {
			fr.event(b, st, "set", []*Term{fr.placeName(p), v}, x.Pos(), e.cfg.TrackSet)
		} else if p.op == OpIAddr && root.op != OpObj {
			fr.event(b, st, "setelem", []*Term{p.args[0], p.args[1], v}, x.Pos(), e.cfg.TrackSet)
		}
		fr.storeTo(st, p, v, b, in)
		return []*State{st}
	case *ssa.Range:
		return fr.set(st, x, e.in.mk(Term{op: OpTuple, str: "range", args: []*Term{fr.val(st, x.X)}, typ: x.X.Type()}))
	case *ssa.Next:
		return fr.next(b, x, st)
	case *ssa.Slice:
		return fr.set(st, x, fr.slice(st, x))
	case *ssa.TypeAssert:
		y := fr.val(st, x.X)
		is, as := e.isTerm(y, x.AssertedType), e.asTerm(y, x.AssertedType)
		if x.CommaOk {
			return fr.set(st, x, e.in.mk(Term{op: OpTuple, args: []*Term{as, is}}))
		}
		if fr.rec {
			e.record(&Obs{name: "assert", args: []*Term{y, is}, st: st.clone(), fn: fr.fn, pos: x.Pos(), ctx: fr.ctx})
		}
		if !e.assumeTerm(st, is, true) {
			return nil
		}
		return fr.set(st, x, as)
	case *ssa.Defer:
		st.defers = append(st.defers, deferRec{instr: x, args: fr.callArgs(st, &x.Call), fnv: fr.calleeVal(st, &x.Call)})
		return []*State{st}
	case *ssa.RunDefers:
		states := []*State{st}
		for i := len(st.defers) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range states {
				d := s.defers[i]
				for _, o := range fr.doCall(b, d.instr, d.instr.Common(), d.fnv, d.args, s) {
					next = append(next, o.st)
				}
			}
			states = next
		}
		for _, s := range states {
			s.defers = nil
		}
		return states
	case *ssa.Go:
		fr.event(b, st, "go", append([]*Term{fr.calleeVal(st, &x.Call)}, fr.callArgs(st, &x.Call)...), x.Pos(), true)
		return []*State{st}
	case *ssa.Send:
		fr.event(b, st, "send", []*Term{fr.val(st, x.Chan), fr.val(st, x.X)}, x.Pos(), true)
		return []*State{st}
	case *ssa.Select:
		// outcome index unknown
		args := []*Term{fresh("selidx", types.Typ[types.Int]), fresh("selok", types.Typ[types.Bool])}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				args = append(args, e.in.mk(Term{op: OpFresh, str: fmt.Sprintf("selrecv%d", i), uid: fr.iuid(b, in), loops: act, typ: s.Chan.Type().Underlying().(*types.Chan).Elem()}))
			}
		}
		return fr.set(st, x, e.in.mk(Term{op: OpTuple, args: args}))
	case *ssa.Call:
		var states []*State
		for _, o := range fr.doCall(b, x, &x.Call, fr.calleeVal(st, &x.Call), fr.callArgs(st, &x.Call), st) {
			var t *Term
			switch len(o.res) {
			case 0:
				t = e.in.Nil()
			case 1:
				t = o.res[0]
			default:
				t = e.in.mk(Term{op: OpTuple, args: o.res})
			}
			o.st.env[x] = t
			states = append(states, o.st)
		}
		return states
	}
	if v, ok := in.(ssa.Value); ok {
		return fr.set(st, v, fresh(fmt.Sprintf("%T", in), v.Type()))
	}
	return []*State{st}
}

// placeName turns an address into the value term it names, for events.
func (fr *frame) placeName(p *Term) *Term {
	e := fr.e
	if p.op == OpFAddr {
		b := p.args[0]
		if b.op == OpFAddr || b.op == OpIAddr {
			b = fr.placeName(b)
		}
		return e.in.mk(Term{op: OpField, str: p.str, args: []*Term{b}, typ: p.typ})
	}
	if p.op == OpIAddr {
		b := p.args[0]
		if b.op == OpFAddr || b.op == OpIAddr {
			b = fr.placeName(b)
		}
		return e.in.mk(Term{op: OpElem, args: []*Term{b, p.args[1]}, typ: p.typ})
	}
	return p
}

// view reads what an argument denotes: contents of places, values otherwise.
func (e *Eng) view(st *State, t *Term) *Term {
	if t.op == OpIface {
		v := e.view(st, t.args[0])
		if v != t.args[0] {
			return e.in.mk(Term{op: OpIface, args: []*Term{v}, typ: t.typ})
		}
		return t
	}
	if t.op == OpObj || t.op == OpFAddr || t.op == OpIAddr {
		return e.load(st, t)
	}
	if t.op == OpGlobal { // the contents of a constant array
		if v, ok := st.store[t]; ok && v.op == OpComp {
			return v
		}
	}
	return t
}

func (fr *frame) event(b *ssa.BasicBlock, st *State, name string, args []*Term, pos token.Pos, record bool) {
	e := fr.e
	var vs []*Term
	for _, a := range args {
		vs = append(vs, e.view(st, a))
	}
	if fr.rec && record {
		e.record(&Obs{name: name, args: vs, st: st.clone(), fn: fr.fn, pos: pos, ctx: fr.ctx, depth: fr.depth, active: fr.activeAt(b)})
	}
	f := e.in.fact(Fact{kind: "EV", name: name, args: vs, pos: pos, loops: fr.activeAt(b)})
	if record && e.cfg.Streams && st.may.has(f) {
		st.may.add(e.in.fact(Fact{kind: "EV", name: name + " again", args: vs, pos: pos, loops: fr.activeAt(b)}))
	}
	st.facts.add(f)
	st.may.add(f)
}

func (fr *frame) next(b *ssa.BasicBlock, x *ssa.Next, st *State) []*State {
	e := fr.e
	r := fr.val(st, x.Iter)
	act := fr.activeAt(b)
	m := r
	if r.op == OpTuple && len(r.args) == 1 {
		m = r.args[0]
	}
	if e.cfg.PathMode && !x.IsString {
		// known literal map: iterate its entries
		if c, ok := st.store[m]; ok && c.op == OpArr {
			// every order of the entries, one after the other
			ik := fmt.Sprintf("next:%d:%s", m.id, fr.iuid(b, x))
			n := len(c.args) / 2
			if n > 6 {
				e.problem("map with %d entries iterated in %s", n, fname(fr.fn))
				return nil
			}
			seen := st.ver[ik] // bit set
			if seen == 1<<n-1 {
				s := st.clone()
				delete(s.ver, ik)
				s.env[x] = e.in.mk(Term{op: OpTuple, args: []*Term{e.in.Bool(false), e.in.Nil(), e.in.Nil()}})
				return []*State{s}
			}
			var out []*State
			for i := 0; i < n; i++ {
				if seen>>i&1 == 0 {
					s := st.clone()
					s.ver[ik] = seen | 1<<i
					s.env[x] = e.in.mk(Term{op: OpTuple, args: []*Term{e.in.Bool(true), c.args[2*i], c.args[2*i+1]}})
					out = append(out, s)
				}
			}
			return out
		}
	}
	var id int
	if len(fr.fi.inLoop[b]) > 0 {
		ls := fr.fi.inLoop[b]
		id = e.loopID(fr, ls[len(ls)-1].header)
	}
	uid := fmt.Sprint(id)
	ok := e.in.mk(Term{op: OpIterOk, uid: uid, args: []*Term{m}, loops: act, typ: types.Typ[types.Bool]})
	var k, v *Term
	if x.IsString {
		k = e.in.mk(Term{op: OpKey, uid: uid, args: []*Term{m}, loops: act, typ: types.Typ[types.Int]})
		v = e.in.Elem(m, k, types.Typ[types.Rune])
	} else {
		mt := r.typ.Underlying().(*types.Map)
		k = e.in.mk(Term{op: OpKey, uid: uid, args: []*Term{m}, loops: act, typ: mt.Key()})
		v = e.in.mk(Term{op: OpGet, args: []*Term{m, k}, ver: st.ver[elemKey(m)], typ: mt.Elem()})
	}
	return fr.set(st, x, e.in.mk(Term{op: OpTuple, args: []*Term{ok, k, v}}))
}

func (fr *frame) slice(st *State, x *ssa.Slice) *Term {
	e := fr.e
	y := fr.val(st, x.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return e.in.Nil()
		}
		return fr.val(st, v)
	}
	lo, hi := opt(x.Low), opt(x.High)
	if c, ok := lo.intConst(); ok && c.Sign() == 0 {
		lo = e.in.Nil()
	}
	if fr.rec && e.cfg.TrackIdx && (x.Low != nil || x.High != nil) {
		e.record(&Obs{name: "slice", args: []*Term{e.view(st, y), lo, hi}, st: st.clone(), fn: fr.fn, pos: x.Pos(), ctx: fr.ctx})
	}
	if !hi.isNil() && hi == e.in.Len(y) {
		hi = e.in.Nil()
	}
	if c, ok := hi.intConst(); ok {
		if a, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok && c.Cmp(big.NewInt(a.Len())) == 0 {
			hi = e.in.Nil()
		}
	}
	if lo.isNil() && hi.isNil() {
		return y
	}
	if y.op == OpSlice && y.args[1].isNil() && y.args[2].isNil() {
		y = y.args[0]
	}
	return e.in.mk(Term{op: OpSlice, args: []*Term{y, lo, hi}, typ: x.Type()})
}

func (fr *frame) binop(st *State, x *ssa.BinOp) *Term {
	e := fr.e
	a, b := fr.val(st, x.X), fr.val(st, x.Y)
	integer := isInteger(x.X.Type())
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b = e.view(st, a), e.view(st, b)
		if integer && isUnsigned(x.X.Type()) && (x.Op == token.LSS || x.Op == token.GTR) {
			s, y := a, b
			if x.Op == token.GTR {
				s, y = b, a
			}
			// a+b < a : wrap-around test
			if ys, yc := e.in.split(y); s.op == OpSum && bigOf(s.val).Sign() == 0 && yc.Sign() == 0 && len(ys) > 0 && len(s.args) == len(ys)+1 && len(e.in.minusAddends(s.args, ys)) == 1 {
				return e.in.mk(Term{op: OpBin, str: "ovf", args: []*Term{s}, typ: x.Type()})
			}
		}
		sfx := ""
		if integer {
			sfx = "i"
		}
		if isBool(x.X.Type()) {
			// b == true / b == false
			if c, ok := b.isBoolConst(); ok {
				return e.boolPol(a, c == (x.Op == token.EQL))
			}
			if c, ok := a.isBoolConst(); ok {
				return e.boolPol(b, c == (x.Op == token.EQL))
			}
		}
		t := e.in.mk(Term{op: OpBin, str: x.Op.String() + sfx, args: []*Term{a, b}, typ: x.Type()})
		switch e.decideTerm(st, t) {
		case yes:
			return e.in.Bool(true)
		case no:
			return e.in.Bool(false)
		}
		return t
	}
	if integer {
		ca, oka := a.intConst()
		cb, okb := b.intConst()
		switch x.Op {
		case token.ADD:
			if oka && okb {
				return e.convert(e.in.BigInt(new(big.Int).Add(ca, cb)), types.Typ[types.Int], x.Type())
			}
			r := e.in.Add(a, b)
			if r.typ == nil {
				r.typ = x.Type()
			}
			return r
		case token.SUB:
			r := e.in.Sub(a, b)
			if r.typ == nil {
				r.typ = x.Type()
			}
			return r
		}
		if oka && okb {
			z := new(big.Int)
			okc := true
			switch x.Op {
			case token.MUL:
				z.Mul(ca, cb)
			case token.QUO:
				if cb.Sign() == 0 {
					okc = false
				} else {
					z.Quo(ca, cb)
				}
			case token.REM:
				if cb.Sign() == 0 {
					okc = false
				} else {
					z.Rem(ca, cb)
				}
			case token.AND:
				z.And(ca, cb)
			case token.OR:
				z.Or(ca, cb)
			case token.XOR:
				z.Xor(ca, cb)
			case token.SHL:
				if cb.IsUint64() && cb.Uint64() < 256 {
					z.Lsh(ca, uint(cb.Uint64()))
				} else {
					okc = false
				}
			case token.SHR:
				if cb.IsUint64() && cb.Uint64() < 256 {
					z.Rsh(ca, uint(cb.Uint64()))
				} else {
					okc = false
				}
			case token.AND_NOT:
				z.AndNot(ca, cb)
			default:
				okc = false
			}
			if okc {
				return e.convert(e.in.BigInt(z), types.Typ[types.UntypedInt], x.Type())
			}
		}
		if x.Op == token.MUL {
			if oka && ca.Cmp(bigOne) == 0 {
				return b
			}
			if okb && cb.Cmp(bigOne) == 0 {
				return a
			}
		}
	}
	switch x.Op {
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	case token.ADD: // strings, floats
	}
	return e.in.mk(Term{op: OpBin, str: x.Op.String(), args: []*Term{a, b}, typ: x.Type()})
}

func (e *Eng) boolPol(t *Term, pol bool) *Term {
	if pol {
		return t
	}
	if c, ok := t.isBoolConst(); ok {
		return e.in.Bool(!c)
	}
	return e.in.mk(Term{op: OpUn, str: "!", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

// ---- calls -----------------------------------------------------------------------------------

func (fr *frame) callArgs(st *State, c *ssa.CallCommon) []*Term {
	var r []*Term
	for _, a := range c.Args {
		r = append(r, fr.val(st, a))
	}
	return r
}

func (fr *frame) calleeVal(st *State, c *ssa.CallCommon) *Term { return fr.val(st, c.Value) }

var pureStd = map[string]bool{
	"bytes": true, "math": true, "bits": true, "hex": true, "strings": true, "strconv": true, "big": true, "reflect": true, "utf8": true, "filepath": true,
}

func isPureStd(name string) bool {
	i := strings.Index(name, ".")
	if i < 0 || !pureStd[name[:i]] {
		return false
	}
	if strings.HasPrefix(name, "bytes.New") || strings.HasPrefix(name, "bytes.Buffer") || strings.HasPrefix(name, "bytes.Reader") || strings.HasPrefix(name, "strings.New") || strings.HasPrefix(name, "strings.Builder") || strings.HasPrefix(name, "strings.Reader") || strings.HasPrefix(name, "reflect.Value.Set") {
		return false
	}
	return true
}

func endsPath(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf":
		return true
	}
	return strings.HasPrefix(name, "logrus.") && (strings.HasSuffix(name, ".Fatal") || strings.HasSuffix(name, ".Fatalf") || strings.HasSuffix(name, ".Panic") || strings.HasSuffix(name, ".Panicf"))
}

func (fr *frame) doCall(b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term, st *State) []Out {
	e := fr.e
	var fn *ssa.Function
	var binds []*Term
	name := ""
	if c.IsInvoke() {
		recv := fnv
		dyn := recv
		if dyn.op == OpIface {
			ms := e.p.SSA.LookupMethod(dyn.typ, c.Method.Pkg(), c.Method.Name())
			if ms != nil {
				fn = ms
				args = append([]*Term{dyn.args[0]}, args...)
			}
		}
		if fn == nil {
			it := c.Value.Type()
			pk := ""
			tn := typeStr(it)
			if n, ok := it.(*types.Named); ok {
				tn = n.Obj().Name()
				if n.Obj().Pkg() != nil {
					pk = n.Obj().Pkg().Name() + "."
				}
			}
			name = pk + tn + "." + c.Method.Name()
			args = append([]*Term{recv}, args...)
		} else {
			name = fname(fn)
		}
	} else if bi, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b, in, bi.Name(), c, args, st)
	} else {
		switch fnv.op {
		case OpFunc:
			fn = fnv.fn
		case OpClosure:
			fn = fnv.fn
			binds = fnv.args
		}
		if fn == nil {
			name = "dyn"
			args = append([]*Term{fnv}, args...)
		} else {
			name = fname(fn)
		}
	}
	tracked := e.cfg.Track != nil && e.cfg.Track(name)
	if tracked {
		fr.event(b, st, name, args, in.Pos(), true)
	}
	if fn != nil && e.inlinable(fn, fr.depth) {
		ctx := fr.iuid(b, in)
		return e.call(fn, args, binds, st, ctx, fr.activeAt(b), fr.rec, fr.depth+1)
	}
	if endsPath(name) {
		return nil
	}
	if name == "sort.Search" && e.cfg.Interval && len(args) == 2 {
		if outs, ok := fr.binarySearch(b, in, args, st); ok {
			return outs
		}
	}
	if e.cfg.Model != nil {
		if outs, ok := e.cfg.Model(fr, b, in, c, name, args, st); ok {
			return outs
		}
	}
	if e.cfg.Streams {
		if outs, ok := fr.stream(b, in, c, name, args, st); ok {
			return outs
		}
	}
	return fr.opaque(b, in, c, fn, name, args, st)
}

// binarySearch evaluates sort.Search where the length is a constant and every question has one decided answer.
func (fr *frame) binarySearch(b *ssa.BasicBlock, in ssa.Instruction, args []*Term, st *State) ([]Out, bool) {
	e := fr.e
	n, ok := args[0].intConst()
	if !ok || !n.IsInt64() || args[1].op != OpClosure && args[1].op != OpFunc {
		return nil, false
	}
	i, j := int64(0), n.Int64()
	for i < j {
		h := (i + j) / 2
		outs := e.call(args[1].fn, []*Term{e.in.Int(h)}, args[1].args, st.clone(), fr.iuid(b, in), fr.activeAt(b), fr.rec, fr.depth+1)
		if len(outs) != 1 || len(outs[0].res) != 1 {
			return nil, false
		}
		switch e.decideTerm(outs[0].st, outs[0].res[0]) {
		case no:
			i = h + 1
		case yes:
			j = h
		default:
			return nil, false
		}
	}
	return []Out{{st: st, res: []*Term{e.in.Int(i)}}}, true
}

func (e *Eng) inlinable(fn *ssa.Function, depth int) bool {
	if fn.Blocks == nil || depth > 16 {
		return false
	}
	if !inModule(funcPkgPath(fn)) {
		return false
	}
	for _, f := range e.stack {
		if f == fn {
			return false
		}
	}
	if e.cfg.Opened[fname(fn)] {
		return true
	}
	if e.cfg.Opaque != nil && e.cfg.Opaque(fn) {
		return false
	}
	return true
}

func (fr *frame) opaque(b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, name string, args []*Term, st *State) []Out {
	e := fr.e
	sig := c.Signature()
	act := fr.activeAt(b)
	pure := false
	switch {
	case isPureStd(name):
		pure = true
	case strings.HasPrefix(name, "logrus.") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors."):
		pure = false // fresh result, no effect on the program's data
	case fn != nil && inModule(funcPkgPath(fn)):
		pure = e.cfg.Impure == nil || !e.cfg.Impure(name)
	case c.IsInvoke():
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
			pure = e.cfg.Impure == nil || !e.cfg.Impure(name)
		}
	}
	var vs []*Term
	for _, a := range args {
		v := e.view(st, a)
		if e.cfg.Streams && v.typ != nil {
			if sl, ok := v.typ.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
				v = e.in.mk(Term{op: OpCall, str: "bytesof", args: []*Term{e.bytesOf(st, a)}, typ: v.typ})
			}
		}
		vs = append(vs, v)
	}
	t := Term{op: OpCall, str: name, args: vs}
	if sig.Results().Len() == 1 {
		t.typ = sig.Results().At(0).Type()
	}
	if !pure {
		t.uid = fr.iuid(b, in)
		t.loops = act
	}
	if name == "bits.Add64" && len(vs) == 3 {
		if z, ok := vs[2].intConst(); ok && z.Sign() == 0 {
			s := e.in.Add(vs[0], vs[1])
			return []Out{{res: []*Term{s, e.in.mk(Term{op: OpCall, str: "carry", args: []*Term{s}, typ: types.Typ[types.Uint64]})}, st: st}}
		}
	}
	if e.cfg.Fix != nil && sig.Results().Len() == 1 {
		if v := e.cfg.Fix(name, vs); v != nil {
			return []Out{{res: []*Term{e.in.Bool(*v)}, st: st}}
		}
	}
	call := e.in.mk(t)
	havoc := !pure && !strings.HasPrefix(name, "logrus.") && !strings.HasPrefix(name, "zap.") && !strings.HasPrefix(name, "fmt.Sprint") && !strings.HasPrefix(name, "fmt.Errorf") && !strings.HasPrefix(name, "errors.") && !strings.HasPrefix(name, "sync.") && !strings.HasPrefix(name, "time.")
	if havoc {
		for i, a := range args {
			x := a
			if x.op == OpIface {
				x = x.args[0]
			}
			if x.op == OpSlice {
				x = x.args[0]
			}
			if e.cfg.Streams {
				// an unknown function may read from it or write to it
				for _, k := range []string{"w", "r"} {
					cell := e.cell(k, x)
					if _, ok := st.store[cell]; !ok && !(k == "w" && isBuffer(x)) {
						continue
					}
					f := e.in.mk(Term{op: OpFresh, str: "used", uid: fmt.Sprintf("%s@%d", fr.iuid(b, in), i), loops: act})
					if k == "w" {
						st.store[cell] = e.w(e.empty(), "bytes", f)
					} else {
						st.store[cell] = e.in.mk(Term{op: OpCall, str: "r:start", args: []*Term{f}})
					}
				}
			}
			if isPlace(x) {
				fr.havocValue(st, x, b, in)
			} else if x.typ != nil {
				_, sl := x.typ.Underlying().(*types.Slice)
				if fn != nil && inModule(funcPkgPath(fn)) || sl && writesSlice(name) {
					fr.havocValue(st, x, b, in)
				}
			}
		}
	}
	var res []*Term
	n := sig.Results().Len()
	if n == 1 {
		res = []*Term{call}
	} else {
		for i := 0; i < n; i++ {
			res = append(res, e.in.mk(Term{op: OpExtract, str: fmt.Sprint(i), args: []*Term{call}, typ: sig.Results().At(i).Type()}))
		}
	}
	return []Out{{res: res, st: st}}
}

func writesSlice(name string) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "io.ReadFull", "io.ReadAtLeast", "rand.Read", "slices.Sort":
		return true
	}
	return strings.HasSuffix(name, ".Read") || strings.Contains(name, ".Put")
}

func (fr *frame) builtin(b *ssa.BasicBlock, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, st *State) []Out {
	e := fr.e
	one := func(t *Term) []Out { return []Out{{res: []*Term{t}, st: st}} }
	act := fr.activeAt(b)
	switch name {
	case "len":
		x := args[0]
		if _, isMap := c.Args[0].Type().Underlying().(*types.Map); isMap {
			return one(e.in.mk(Term{op: OpLen, args: []*Term{x}, ver: st.ver[elemKey(x)]}))
		}
		if isPlace(x) {
			x = e.view(st, x)
		}
		return one(e.in.Len(x))
	case "cap":
		return one(e.in.mk(Term{op: OpCap, args: []*Term{args[0]}}))
	case "append":
		var vs []*Term
		if e.cfg.Unroll && elemIsByte(c.Args[0].Type()) {
			// short sequences are known byte by byte
			if s, ok := e.byteSeq(st, e.in.mk(Term{op: OpAppend, args: args})); ok {
				return one(e.in.mk(Term{op: OpCall, str: "byteseq", args: s, typ: c.Args[0].Type()}))
			}
		}
		for _, a := range args {
			v := e.view(st, a)
			if v.op == OpComp && len(v.args) == 2 && v.args[1].op == OpObj && !e.cfg.Streams && !e.cfg.PathMode {
				// the one appended object is described by its contents
				if in := e.view(st, v.args[1]); in != v.args[1] {
					v = e.in.mk(Term{op: OpComp, str: v.str, args: []*Term{v.args[0], in}, typ: v.typ})
				}
			}
			vs = append(vs, v)
		}
		t := e.in.mk(Term{op: OpAppend, args: vs, typ: c.Args[0].Type()})
		return one(t)
	case "copy":
		if e.cfg.Streams {
			if fr.streamCopy(b, in, args, st) {
				return one(e.in.Len(args[1]))
			}
		}
		src := e.view(st, args[1])
		n := e.in.mk(Term{op: OpFresh, str: "copied", uid: fr.iuid(b, in), loops: act, typ: types.Typ[types.Int]})
		d := args[0]
		if isPlace(d) {
			fr.storeTo(st, d, e.in.mk(Term{op: OpCall, str: "copyof", args: []*Term{src}, typ: d.typ}), b, in)
		} else {
			x := d
			if x.op == OpSlice {
				x = x.args[0]
			}
			fr.havocValue(st, x, b, in)
		}
		return one(n)
	case "delete":
		m := args[0]
		fr.event(b, st, "delete", []*Term{m, e.view(st, args[1])}, in.Pos(), e.cfg.TrackSet)
		st.ver[elemKey(m)] = e.in.version("d"+fr.iuid(b, in), act)
		delete(st.store, m)
		return []Out{{st: st}}
	case "panic":
		return nil
	case "close":
		fr.event(b, st, "close", args, in.Pos(), true)
		return []Out{{st: st}}
	case "recover", "print", "println":
		return one(e.in.Nil())
	case "min", "max":
		vs := append([]*Term{}, args...)
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		return one(e.in.mk(Term{op: OpCall, str: name, args: vs, typ: c.Signature().Results().At(0).Type()}))
	}
	var ty types.Type
	if v, ok := in.(ssa.Value); ok {
		ty = v.Type()
	}
	return one(e.in.mk(Term{op: OpFresh, str: name, uid: fr.iuid(b, in), loops: act, typ: ty}))
}

func elemIsByte(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(s.Elem())
}

func isBuffer(x *Term) bool {
	return x.typ != nil && strings.HasSuffix(derefType(x.typ).String(), "bytes.Buffer")
}
