package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed symbolic values. Pointers and the values they point to are unified: only
// "places" (abstract objects, addresses of fields/elements, globals) are kept apart, because loads
// and stores through them go through the abstract store.
type Op uint8

const (
	OpConst Op = iota
	OpZero     // zero value of a composite type
	OpParam
	OpGlobal
	OpFunc
	OpClosure
	OpObj
	OpField
	OpFAddr
	OpElem
	OpIAddr
	OpCall
	OpExtract
	OpBin
	OpUn
	OpConv
	OpSlice
	OpLen
	OpCap
	OpAs
	OpIs
	OpIface
	OpGet
	OpHas
	OpIter
	OpKey
	OpIterOk
	OpLV
	OpJoin
	OpFresh
	OpMake
	OpComp
	OpSum
	OpAppend
	OpTuple
	OpArr // array/slice literal contents
)

type Term struct {
	id    int
	op    Op
	str   string
	val   constant.Value
	args  []*Term
	typ   types.Type
	ver   int
	uid   string
	loops []int
	fn    *ssa.Function
	pos   token.Pos
}

type termKey string

type Interner struct {
	terms  map[termKey]*Term
	facts  map[string]*Fact
	nterm  int
	nfact  int
	tnames map[types.Type]string

	verIDs   map[string]int
	verLoops map[int][]int
}

// ver interns a version stamp; loops are the loops in which the stamp was created.
func (in *Interner) version(key string, loops []int) int {
	if v, ok := in.verIDs[key]; ok {
		return v
	}
	v := len(in.verIDs) + 1
	in.verIDs[key] = v
	in.verLoops[v] = loops
	return v
}

func NewInterner() *Interner {
	return &Interner{terms: map[termKey]*Term{}, facts: map[string]*Fact{}, tnames: map[types.Type]string{}, verIDs: map[string]int{}, verLoops: map[int][]int{}}
}

func (in *Interner) tname(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := in.tnames[t]; ok {
		return s
	}
	s := typeStr(t)
	in.tnames[t] = s
	return s
}

// typeStr renders a type with package base names: *cryptonote.Block, map[crypto.KeyImage]bool.
func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interner) mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(t.str)
	b.WriteByte('|')
	if t.val != nil {
		b.WriteString(t.val.ExactString())
	}
	b.WriteByte('|')
	switch t.op {
	case OpConst, OpZero, OpConv, OpAs, OpIs, OpIface, OpComp:
		b.WriteString(in.tname(t.typ))
	}
	b.WriteByte('|')
	b.WriteString(t.uid)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.ver))
	if t.fn != nil {
		fmt.Fprintf(&b, "|%p", t.fn)
	}
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := termKey(b.String())
	if x, ok := in.terms[k]; ok {
		return x
	}
	in.nterm++
	t.id = in.nterm
	for _, a := range t.args {
		t.loops = unionInts(t.loops, a.loops)
	}
	if t.ver != 0 {
		t.loops = unionInts(t.loops, in.verLoops[t.ver])
	}
	x := &t
	in.terms[k] = x
	return x
}

func unionInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	all := true
	for _, x := range b {
		if !m[x] {
			all = false
			m[x] = true
		}
	}
	if all {
		return a
	}
	r := make([]int, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

func hasInt(a []int, x int) bool {
	for _, y := range a {
		if y == x {
			return true
		}
	}
	return false
}

func isPlace(t *Term) bool {
	switch t.op {
	case OpObj, OpFAddr, OpIAddr, OpGlobal:
		return true
	}
	return false
}

func placeRoot(t *Term) *Term {
	for t.op == OpFAddr || t.op == OpIAddr {
		t = t.args[0]
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isNil() bool   { return t.op == OpConst && t.val == nil && t.str == "nil" }
func (t *Term) isBoolConst() (bool, bool) {
	if t.op == OpConst && t.val != nil && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}
func (t *Term) intConst() (*big.Int, bool) {
	if t.op == OpConst && t.val != nil && t.val.Kind() == constant.Int {
		return bigOf(t.val), true
	}
	return nil, false
}

func bigOf(v constant.Value) *big.Int {
	switch x := constant.Val(v).(type) {
	case int64:
		return big.NewInt(x)
	case *big.Int:
		return x
	}
	return big.NewInt(0)
}

func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.args[i].render(d + 1) }
	list := func(ts []*Term) string {
		var ss []string
		for _, x := range ts {
			ss = append(ss, x.render(d+1))
		}
		return strings.Join(ss, ", ")
	}
	v := ""
	if t.ver != 0 {
		v = "'" // a later version of the place
	}
	switch t.op {
	case OpConst:
		if t.val != nil {
			return t.val.String()
		}
		return "nil"
	case OpZero:
		return "zero(" + typeStr(t.typ) + ")"
	case OpParam, OpGlobal, OpFunc:
		return t.str + v
	case OpClosure:
		return "closure:" + t.str
	case OpObj:
		return "obj:" + t.str
	case OpField:
		return a(0) + "." + t.str + v
	case OpFAddr:
		return "&" + a(0) + "." + t.str
	case OpElem:
		return a(0) + "[" + a(1) + "]" + v
	case OpIAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OpCall:
		s := ""
		if t.uid != "" {
			s = "#"
		}
		return t.str + s + "(" + list(t.args) + ")"
	case OpExtract:
		return a(0) + "." + t.str
	case OpBin:
		return "(" + a(0) + " " + t.str + " " + a(1) + ")"
	case OpUn:
		return t.str + a(0)
	case OpConv:
		return typeStr(t.typ) + "(" + a(0) + ")"
	case OpSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OpLen:
		return "len(" + a(0) + ")"
	case OpCap:
		return "cap(" + a(0) + ")"
	case OpAs:
		return a(0) + ".(" + typeStr(t.typ) + ")"
	case OpIs:
		return "is(" + a(0) + ", " + typeStr(t.typ) + ")"
	case OpIface:
		return a(0)
	case OpGet:
		return a(0) + "[" + a(1) + "]" + v
	case OpHas:
		return "has(" + a(0) + ", " + a(1) + ")" + v
	case OpIter:
		return "i" + t.uid
	case OpKey:
		return "key" + t.uid
	case OpIterOk:
		return "more" + t.uid
	case OpLV:
		return "loop:" + t.str + t.uid
	case OpJoin:
		return "join:" + t.str
	case OpFresh:
		return "fresh:" + t.str
	case OpMake:
		return "make:" + t.str + "(" + list(t.args) + ")"
	case OpComp:
		var ss []string
		names := strings.Split(t.str, ",")
		for i, x := range t.args[1:] {
			n := ""
			if i < len(names) {
				n = names[i]
			}
			ss = append(ss, n+":"+x.render(d+1))
		}
		return typeStr(t.typ) + "{" + strings.Join(ss, ", ") + "}"
	case OpSum:
		var ss []string
		for _, x := range t.args {
			ss = append(ss, x.render(d+1))
		}
		if bigOf(t.val).Sign() != 0 {
			ss = append(ss, t.val.String())
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OpAppend:
		return "append(" + list(t.args) + ")"
	case OpTuple:
		return "(" + list(t.args) + ")"
	case OpArr:
		return "{" + list(t.args) + "}"
	}
	return "?"
}

// ---- constructors -------------------------------------------------------------------------

func (in *Interner) Const(v constant.Value, typ types.Type) *Term {
	// typed identity of integer constants is irrelevant for comparisons
	return in.mk(Term{op: OpConst, val: v})
}
func (in *Interner) Int(i int64) *Term { return in.Const(constant.MakeInt64(i), nil) }
func (in *Interner) BigInt(i *big.Int) *Term {
	return in.Const(constant.Make(new(big.Int).Set(i)), nil)
}
func (in *Interner) Bool(b bool) *Term { return in.Const(constant.MakeBool(b), nil) }
func (in *Interner) Nil() *Term        { return in.mk(Term{op: OpConst, str: "nil"}) }

func (in *Interner) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return in.Int(0)
		case u.Info()&types.IsFloat != 0:
			return in.Const(constant.MakeFloat64(0), nil)
		case u.Info()&types.IsString != 0:
			return in.Const(constant.MakeString(""), nil)
		}
		return in.Nil()
	case *types.Struct, *types.Array:
		return in.mk(Term{op: OpZero, typ: t})
	}
	return in.Nil()
}

func (in *Interner) Field(base *Term, name string, ft types.Type, ver int) *Term {
	switch base.op {
	case OpComp:
		for i, n := range strings.Split(base.str, ",") {
			if n == name {
				return base.args[1+i]
			}
		}
		return in.Field(base.args[0], name, ft, ver)
	case OpZero:
		if ft != nil {
			return in.Zero(ft)
		}
	case OpIface:
		return in.Field(base.args[0], name, ft, ver)
	}
	return in.mk(Term{op: OpField, str: name, args: []*Term{base}, typ: ft, ver: ver})
}

func (in *Interner) Elem(base, idx *Term, et types.Type) *Term {
	switch base.op {
	case OpArr, OpCall:
		if base.op == OpCall && base.str != "byteseq" {
			break
		}
		if c, ok := idx.intConst(); ok && c.IsInt64() && c.Int64() >= 0 && int(c.Int64()) < len(base.args) {
			return base.args[c.Int64()]
		}
	case OpComp:
		// contents of an array literal: known when every written index is a constant
		if c, ok := idx.intConst(); ok {
			want, all := "[="+c.String()+"]", true
			for i, n := range strings.Split(base.str, ",") {
				if n == want {
					return base.args[i+1]
				}
				all = all && strings.HasPrefix(n, "[=")
			}
			_ = all
		}
	case OpZero:
		if et != nil {
			return in.Zero(et)
		}
	case OpSlice:
		// x[lo:hi][i] == x[lo+i]
		if !base.args[1].isNil() {
			return in.Elem(base.args[0], in.Add(base.args[1], idx), et)
		}
		return in.Elem(base.args[0], idx, et)
	}
	return in.mk(Term{op: OpElem, args: []*Term{base, idx}, typ: et})
}

func (in *Interner) Len(x *Term) *Term {
	switch x.op {
	case OpConst:
		if x.isNil() {
			return in.Int(0)
		}
		if x.val != nil && x.val.Kind() == constant.String {
			return in.Int(int64(len(constant.StringVal(x.val))))
		}
	case OpMake:
		if len(x.args) > 0 {
			return x.args[0]
		}
	case OpArr:
		return in.Int(int64(len(x.args)))
	case OpCall:
		if x.str == "byteseq" {
			return in.Int(int64(len(x.args)))
		}
	case OpZero:
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			return in.Int(a.Len())
		}
	case OpSlice:
		lo, hi := x.args[1], x.args[2]
		if lo.isNil() {
			lo = in.Int(0)
		}
		if hi.isNil() {
			hi = in.Len(x.args[0])
		}
		return in.Sub(hi, lo)
	}
	if t := x.typ; t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return in.Int(a.Len())
		}
	}
	return in.mk(Term{op: OpLen, args: []*Term{x}})
}

// split returns the non-constant addends and the constant part of an integer term.
func (in *Interner) split(t *Term) ([]*Term, *big.Int) {
	if c, ok := t.intConst(); ok {
		return nil, c
	}
	if t.op == OpSum {
		return t.args, bigOf(t.val)
	}
	return []*Term{t}, big.NewInt(0)
}

func (in *Interner) mkSum(ts []*Term, c *big.Int) *Term {
	if len(ts) == 0 {
		return in.BigInt(c)
	}
	if len(ts) == 1 && c.Sign() == 0 {
		return ts[0]
	}
	ts = append([]*Term{}, ts...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return in.mk(Term{op: OpSum, args: ts, val: constant.Make(new(big.Int).Set(c))})
}

func (in *Interner) Add(a, b *Term) *Term {
	ta, ca := in.split(a)
	tb, cb := in.split(b)
	ts := append(append([]*Term{}, ta...), tb...)
	return in.mkSum(ts, new(big.Int).Add(ca, cb))
}

func (in *Interner) Sub(a, b *Term) *Term {
	ta, ca := in.split(a)
	tb, cb := in.split(b)
	// cancel common addends
	rest := append([]*Term{}, ta...)
	var left []*Term
	for _, y := range tb {
		found := false
		for i, x := range rest {
			if x == y {
				rest = append(rest[:i], rest[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			left = append(left, y)
		}
	}
	c := new(big.Int).Sub(ca, cb)
	if len(left) == 0 {
		return in.mkSum(rest, c)
	}
	l := in.mkSum(left, big.NewInt(0))
	return in.mk(Term{op: OpBin, str: "-", args: []*Term{in.mkSum(rest, c), l}})
}

// minusAddends: the addends of ts which are not in ys.
func (in *Interner) minusAddends(ts, ys []*Term) []*Term {
	rest := append([]*Term{}, ts...)
	for _, y := range ys {
		for i, x := range rest {
			if x == y {
				rest = append(rest[:i], rest[i+1:]...)
				break
			}
		}
	}
	return rest
}

var maxU64 = new(big.Int).SetUint64(^uint64(0))

// ---- facts --------------------------------------------------------------------------------

// Fact kinds:
//
//	EQ a b c   a == b + c       NE a b c   a != b + c     LE a b c   a <= b + c
//	T a        boolean a holds  F a        boolean a does not hold
//	NOOVF a b  a + b does not overflow uint64
//	EV name args   the event happened on every path to here
//	INIT lv v  loop variable lv starts as v     STEP lv v   one iteration sets lv to v
type Fact struct {
	id    int
	kind  string
	a, b  *Term
	c     *big.Int
	name  string
	args  []*Term
	quant []int
	loops []int
	pos   token.Pos
	g, f  *Fact // IMP: g implies f
}

func (in *Interner) fact(f Fact) *Fact {
	var sb strings.Builder
	sb.WriteString(f.kind)
	w := func(t *Term) {
		sb.WriteByte('|')
		if t != nil {
			sb.WriteString(strconv.Itoa(t.id))
		}
	}
	w(f.a)
	w(f.b)
	if f.c != nil {
		sb.WriteString("|" + f.c.String())
	}
	sb.WriteString("|" + f.name)
	for _, x := range f.args {
		w(x)
	}
	for _, q := range f.quant {
		fmt.Fprintf(&sb, "~%d", q)
	}
	if f.kind == "IMP" {
		fmt.Fprintf(&sb, "^%d^%d", f.g.id, f.f.id)
		f.loops = unionInts(f.loops, unionInts(f.g.loops, f.f.loops))
	}
	k := sb.String()
	if x, ok := in.facts[k]; ok {
		return x
	}
	in.nfact++
	f.id = in.nfact
	if f.a != nil {
		f.loops = unionInts(f.loops, f.a.loops)
	}
	if f.b != nil {
		f.loops = unionInts(f.loops, f.b.loops)
	}
	for _, x := range f.args {
		f.loops = unionInts(f.loops, x.loops)
	}
	x := &f
	in.facts[k] = x
	return x
}

func (in *Interner) quantify(f *Fact, loop int) *Fact {
	q := append([]int{loop}, f.quant...)
	return in.fact(Fact{kind: f.kind, a: f.a, b: f.b, c: f.c, name: f.name, args: f.args, quant: q, pos: f.pos, loops: f.loops, g: f.g, f: f.f})
}

func (f *Fact) String() string {
	q := ""
	for _, x := range f.quant {
		q += fmt.Sprintf("forall i%d: ", x)
	}
	cs := ""
	if f.c != nil && f.c.Sign() != 0 {
		cs = " + " + f.c.String()
	}
	s := func(t *Term) string {
		if t == nil {
			return "0"
		}
		return t.String()
	}
	switch f.kind {
	case "EQ":
		return q + s(f.a) + " == " + s(f.b) + cs
	case "NE":
		return q + s(f.a) + " != " + s(f.b) + cs
	case "LE":
		return q + s(f.a) + " <= " + s(f.b) + cs
	case "T":
		return q + s(f.a)
	case "F":
		return q + "!" + s(f.a)
	case "NOOVF":
		return q + "noovf(" + s(f.a) + ", " + s(f.b) + ")"
	case "IMP":
		return q + "(" + f.g.String() + " => " + f.f.String() + ")"
	case "INIT", "STEP":
		return q + f.kind + " " + s(f.a) + " := " + s(f.b)
	case "EV":
		var ss []string
		for _, x := range f.args {
			ss = append(ss, x.String())
		}
		return q + "event " + f.name + "(" + strings.Join(ss, ", ") + ")"
	}
	return q + f.kind
}

// cmpFact normalises  a OP b  (with polarity pol).
func (in *Interner) cmpFact(op token.Token, a, b *Term, pol bool, integer bool) *Fact {
	if !pol {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		}
	}
	if op == token.GTR {
		op, a, b = token.LSS, b, a
	}
	if op == token.GEQ {
		op, a, b = token.LEQ, b, a
	}
	if !integer {
		if op == token.EQL || op == token.NEQ {
			if a.id > b.id {
				a, b = b, a
			}
			k := "EQ"
			if op == token.NEQ {
				k = "NE"
			}
			return in.fact(Fact{kind: k, a: a, b: b, c: big.NewInt(0)})
		}
		// non-integer order: opaque boolean
		return in.fact(Fact{kind: "T", a: in.mk(Term{op: OpBin, str: op.String(), args: []*Term{a, b}})})
	}
	ta, ca := in.split(a)
	tb, cb := in.split(b)
	// a subtraction from the largest uint64 cannot underflow: move the subtrahend across
	mv := func(ts, other []*Term, c *big.Int) ([]*Term, []*Term, *big.Int) {
		var keep []*Term
		c = new(big.Int).Set(c)
		for _, t := range ts {
			if t.op == OpBin && t.str == "-" {
				if m, ok := t.args[0].intConst(); ok && m.Cmp(maxU64) == 0 {
					st, sc := in.split(t.args[1])
					other = append(append([]*Term{}, other...), st...)
					c.Add(c, m)
					c.Sub(c, sc)
					continue
				}
			}
			keep = append(keep, t)
		}
		return keep, other, c
	}
	ta, tb, ca = mv(ta, tb, ca)
	tb, ta, cb = mv(tb, ta, cb)
	// cancel common addends
	ra := append([]*Term{}, ta...)
	var rb []*Term
	for _, y := range tb {
		found := false
		for i, x := range ra {
			if x == y && (len(ta) > 1 || len(tb) > 1 || ca.Sign() != 0 || cb.Sign() != 0) {
				ra = append(ra[:i], ra[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			rb = append(rb, y)
		}
	}
	var A, B *Term
	if len(ra) > 0 {
		A = in.mkSum(ra, big.NewInt(0))
	}
	if len(rb) > 0 {
		B = in.mkSum(rb, big.NewInt(0))
	}
	c := new(big.Int).Sub(cb, ca) // A op B + c
	switch op {
	case token.LSS:
		return in.fact(Fact{kind: "LE", a: A, b: B, c: c.Sub(c, big.NewInt(1))})
	case token.LEQ:
		return in.fact(Fact{kind: "LE", a: A, b: B, c: c})
	}
	ia, ib := 0, 0
	if A != nil {
		ia = A.id
	}
	if B != nil {
		ib = B.id
	}
	if ia < ib {
		A, B = B, A
		c = c.Neg(c)
	}
	k := "EQ"
	if op == token.NEQ {
		k = "NE"
	}
	return in.fact(Fact{kind: k, a: A, b: B, c: c})
}

func bigInt(i int) *big.Int { return big.NewInt(int64(i)) }
