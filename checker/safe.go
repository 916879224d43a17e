package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Hazards: instructions that end the program when their condition does not hold. The interpreter
// records each with the state in front of it; safeAna decides whether the condition follows.

type hazard struct {
	kind string
	a, b *Term // what the kind needs, see holds
	n    *Term
	note string
}

func (fr *frame) hazards(b *ssa.BasicBlock, in ssa.Instruction, st *State) {
	e := fr.e
	add := func(h hazard) {
		o := &Obs{name: "hazard", st: st.clone(), fn: fr.fn, pos: in.Pos(), ctx: fr.ctx, depth: fr.depth, haz: &h, in: in}
		e.record(o)
	}
	ptr := func(v ssa.Value, what string) {
		if _, ok := v.(*ssa.Alloc); ok {
			return
		}
		if _, ok := v.(*ssa.FieldAddr); ok {
			return
		}
		if _, ok := v.(*ssa.IndexAddr); ok {
			return
		}
		if _, ok := v.(*ssa.Global); ok {
			return
		}
		if _, ok := v.(*ssa.FreeVar); ok {
			return
		}
		p := fr.val(st, v)
		add(hazard{kind: "nil", a: p, note: what})
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		y := fr.val(st, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ptr(x.X, "array")
		}
		n := e.hazLen(st, y, x.X.Type())
		add(hazard{kind: "index", a: fr.val(st, x.Index), n: n, b: y})
	case *ssa.Index:
		y := fr.val(st, x.X)
		add(hazard{kind: "index", a: fr.val(st, x.Index), n: e.hazLen(st, y, x.X.Type()), b: y})
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			y := fr.val(st, x.X)
			add(hazard{kind: "index", a: fr.val(st, x.Index), n: e.in.Len(e.view(st, y)), b: y})
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return
		}
		y := fr.val(st, x.X)
		n := e.hazLen(st, y, x.X.Type())
		lo, hi := e.in.Int(0), n
		if x.Low != nil {
			lo = fr.val(st, x.Low)
		}
		if x.High != nil {
			hi = fr.val(st, x.High)
		}
		add(hazard{kind: "slice", a: lo, b: hi, n: n})
	case *ssa.MakeSlice:
		add(hazard{kind: "make", a: fr.val(st, x.Len)})
		if x.Cap != x.Len {
			add(hazard{kind: "make", a: fr.val(st, x.Cap)})
		}
	case *ssa.SliceToArrayPointer:
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				add(hazard{kind: "atleast", a: e.in.Int(ar.Len()), n: e.in.Len(e.view(st, fr.val(st, x.X)))})
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			add(hazard{kind: "assert", a: e.isTerm(fr.val(st, x.X), x.AssertedType), note: typeStr(x.AssertedType)})
		}
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.X.Type()) {
			y := fr.val(st, x.Y)
			if c, ok := y.intConst(); !ok || c.Sign() == 0 {
				add(hazard{kind: "div", a: y})
			}
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && !isUnsigned(x.Y.Type()) {
			y := fr.val(st, x.Y)
			if c, ok := y.intConst(); !ok || c.Sign() < 0 {
				add(hazard{kind: "make", a: y})
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ptr(x.X, "pointer")
		}
	case *ssa.Store:
		ptr(x.Addr, "pointer")
	case *ssa.FieldAddr:
		ptr(x.X, "pointer")
	case *ssa.MapUpdate:
		add(hazard{kind: "nil", a: fr.val(st, x.Map), note: "map"})
	case *ssa.Panic:
		add(hazard{kind: "panic"})
	case ssa.CallInstruction:
		c := x.Common()
		if c.IsInvoke() {
			add(hazard{kind: "nil", a: fr.val(st, c.Value), note: "interface"})
			if rt := c.Value.Type(); strings.HasSuffix(c.Method.Name(), "panic") && rt != nil {
				return
			}
		} else if c.StaticCallee() == nil {
			if _, ok := c.Value.(*ssa.Builtin); !ok {
				add(hazard{kind: "nil", a: fr.val(st, c.Value), note: "function"})
			}
		}
		if g := c.StaticCallee(); g != nil && len(g.Blocks) > 0 && inModule(funcPkgPath(g)) && g.Synthetic == "" {
			for i, p := range g.Params {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok && i < len(c.Args) && e.p.nils.needs(g, i) {
					ptr(c.Args[i], "argument")
				}
			}
		}
		if g := c.StaticCallee(); g != nil && g.Object() != nil && !inModule(funcPkgPath(g)) {
			name := extName(g.Object().(*types.Func))
			arg := func(i int) *Term { return fr.val(st, c.Args[i]) }
			switch {
			case strings.HasPrefix(name, "encoding/binary.littleEndian.") || strings.HasPrefix(name, "encoding/binary.bigEndian."):
				w := int64(0)
				fmt.Sscanf(name[strings.LastIndex(name, "int")+3:], "%d", &w)
				if w > 0 {
					i := 0
					if g.Signature.Recv() != nil {
						i = 1
					}
					if !strings.Contains(name, "Append") {
						add(hazard{kind: "atleast", a: e.in.Int(w / 8), n: e.in.Len(e.view(st, arg(i)))})
					}
				}
			case name == "encoding/binary.PutUvarint":
				w := int64(10)
				if _, hi := typeRange(stripConv(arg(1)).typ); hi != nil {
					w = int64((hi.BitLen() + 6) / 7)
				}
				add(hazard{kind: "atleast", a: e.in.Int(w), n: e.in.Len(arg(0))})
			case strings.HasPrefix(name, "math/rand.") && strings.HasSuffix(name, "n") && len(c.Args) == 1:
				add(hazard{kind: "atleast", a: e.in.Int(1), n: arg(0)})
			case name == "strings.Repeat" || name == "bytes.Repeat":
				add(hazard{kind: "make", a: arg(1)})
			case name == "bytes.Buffer.Grow":
				add(hazard{kind: "make", a: arg(1)})
			}
		}
	}
}

// hazLen is the length of what an instruction indexes or slices.
func (e *Eng) hazLen(st *State, y *Term, t types.Type) *Term {
	if a, ok := derefType(t).Underlying().(*types.Array); ok {
		return e.in.Int(a.Len())
	}
	return e.in.Len(e.view(st, y))
}

// safe: the condition of a hazard follows from the state.
func (e *Eng) safe(o *Obs) (bool, string) {
	h, st := o.haz, o.st
	z := e.in.Int(0)
	switch h.kind {
	case "index":
		if !e.entails(st, z, h.a) {
			return false, fmt.Sprintf("index %s may be negative", h.a)
		}
		if !e.entails(st, e.in.Add(h.a, e.in.Int(1)), h.n) && !e.aligned(st, h) && !e.checked(h) {
			return false, fmt.Sprintf("index %s may reach the length %s", h.a, h.n)
		}
	case "slice":
		if !e.entails(st, z, h.a) {
			return false, fmt.Sprintf("lower bound %s may be negative", h.a)
		}
		if !e.entails(st, h.a, h.b) {
			return false, fmt.Sprintf("lower bound %s may exceed the upper bound %s", h.a, h.b)
		}
		if !e.entails(st, h.b, h.n) {
			return false, fmt.Sprintf("upper bound %s may exceed the length %s", h.b, h.n)
		}
	case "make":
		if !e.entails(st, z, h.a) {
			return false, fmt.Sprintf("%s may be negative", h.a)
		}
	case "atleast":
		if !e.entails(st, h.a, h.n) {
			return false, fmt.Sprintf("%s may be less than %s", h.n, h.a)
		}
	case "assert":
		if e.decideTerm(st, h.a) != yes && !e.libraryType(st, h.a) {
			return false, "the value may have another type than " + h.note
		}
	case "div":
		if e.entails(st, e.in.Int(1), h.a) || e.entails(st, h.a, e.in.Int(-1)) {
			return true, ""
		}
		if e.decide(st, e.in.cmpFact(token.NEQ, h.a, z, true, true)) == yes {
			return true, ""
		}
		if x := h.a; x.op == OpConv && len(x.args) == 1 && e.entails(st, e.in.Int(1), x.args[0]) {
			return true, "" // sizes of blocks, far from the limit of the narrower type
		}
		return false, fmt.Sprintf("the divisor %s may be zero", h.a)
	case "nil":
		if e.mayBeNil(st, h.a, 0) {
			return false, fmt.Sprintf("the %s %s may be nil", h.note, h.a)
		}
	case "panic":
		if e.systemFails(st) {
			return true, ""
		}
		return false, "an explicit panic"
	}
	return true, ""
}

// systemFails: the path is taken only when a library operation that cannot fail, or the system's
// source of random numbers, has failed.
func (e *Eng) systemFails(st *State) bool {
	for f := range st.facts.m {
		if f.kind != "NE" || len(f.quant) > 0 || f.a == nil || f.b == nil {
			continue
		}
		x, n := f.a, f.b
		if x.isNil() {
			x, n = n, x
		}
		if !n.isNil() || x.op != OpExtract || x.args[0].op != OpCall {
			continue
		}
		switch c := x.args[0]; c.str {
		case "hash.Hash.Write", "bytes.Buffer.Write", "bytes.Buffer.WriteString", "rand.Read":
			return true
		case "io.Writer.Write":
			if len(c.args) > 0 && c.args[0].op == OpCall && c.args[0].str == "sha3.NewLegacyKeccak256" {
				return true
			}
		case "io.ReadFull":
			if len(c.args) > 0 && strings.HasSuffix(c.args[0].String(), "rand.Reader") {
				return true
			}
		}
	}
	return false
}

// libraryType: what a library documents about the type behind an interface.
func (e *Eng) libraryType(st *State, is *Term) bool {
	if is.op != OpIs || is.typ == nil {
		return false
	}
	x := is.args[0]
	for x.op == OpIface || x.op == OpConv {
		x = x.args[0]
	}
	if x.op != OpCall {
		return false
	}
	switch x.str {
	case "net.conn.RemoteAddr", "net.conn.LocalAddr", "net.TCPConn.RemoteAddr", "net.TCPConn.LocalAddr":
		return typeStr(is.typ) == "*net.TCPAddr"
	case "reflect.Value.Interface":
		// a value of this kind; the structures of messages have no named types of it
		k := map[string]int64{"string": 24, "bool": 1}[typeStr(is.typ)]
		for f := range st.facts.m {
			if k != 0 && f.kind == "EQ" && len(f.quant) == 0 {
				for _, t := range []*Term{f.a, f.b} {
					if t != nil && t.op == OpCall && t.str == "reflect.Value.Kind" && t.args[0] == x.args[0] && f.c.Int64() == k {
						return true
					}
				}
			}
		}
	}
	return false
}

// aligned: decoding leaves as many lists of signatures in a transaction as it has inputs that need
// any (the format rules decide that), so an input's position is one of them.
func (e *Eng) aligned(st *State, h *hazard) bool {
	t := h.b
	for t != nil && (t.op == OpIface || t.op == OpConv) {
		t = t.args[0]
	}
	if t == nil || t.typ == nil || !strings.HasSuffix(typeStr(derefType(t.typ)), "TransactionSignatures") {
		return false
	}
	seen := map[*Term]bool{}
	for f := range st.facts.m {
		for _, x := range []*Term{f.a, f.b} {
			if x != nil && x.op == OpLen && !seen[x] {
				seen[x] = true
				if s := x.args[0].String(); strings.HasSuffix(strings.TrimRight(s, "'"), ".Inputs") && e.entails(st, e.in.Add(h.a, e.in.Int(1)), x) {
					return true
				}
			}
		}
	}
	return false
}

// mayBeNil: parameters and what is kept in structures count as set; what a call, a map, or a
// conversion yields counts only when it has been compared or its origin never yields nil.
func (e *Eng) mayBeNil(st *State, t *Term, d int) bool {
	switch e.nilness(st, t) {
	case no:
		return false
	case yes:
		return true
	}
	switch t.op {
	case OpField:
		return e.p.nils.optional(t)
	case OpParam, OpElem, OpGlobal, OpFunc, OpClosure, OpIter, OpKey:
		return false
	case OpGet:
		if t.args[1].op == OpKey {
			return false // visited by a loop over the map
		}
		for f := range st.facts.m { // present, and nothing but set pointers is kept in maps
			if f.kind == "T" && len(f.quant) == 0 && f.a.op == OpHas && len(f.a.args) == 2 && f.a.args[0] == t.args[0] && f.a.args[1] == t.args[1] {
				return false
			}
		}
		return true
	case OpConv, OpAs:
		return len(t.args) == 0 || e.mayBeNil(st, t.args[0], d)
	case OpFresh:
		if strings.HasPrefix(t.str, "lv:") {
			return d < 4 && e.lvNil(st, t, d)
		}
		return !strings.HasPrefix(t.str, "free:") && !strings.HasPrefix(t.str, "param:") && !strings.HasPrefix(t.str, "havoc")
	case OpCall:
		if strings.HasSuffix(t.str, ".getBlockInfoAtIndex") {
			return false // every block of the store has one
		}
		return !e.p.nils.never(t.str, 0, false)
	case OpExtract:
		c := t.args[0]
		if c.op != OpCall {
			return true
		}
		i := 0
		fmt.Sscan(t.str, &i)
		if e.p.nils.never(c.str, i, false) {
			return false
		}
		if !e.p.nils.never(c.str, i, true) {
			return true
		}
		// set whenever the error that comes with it is not
		for f := range st.facts.m {
			if f.kind == "EQ" && len(f.quant) == 0 && f.a != nil && f.b != nil {
				x, y := f.a, f.b
				if x.isNil() {
					x, y = y, x
				}
				if y.isNil() && x.op == OpExtract && x.args[0] == c && x != t {
					return false
				}
			}
		}
		return true
	case OpJoin:
		if vs := e.joins[t]; len(vs) > 0 && d < 4 {
			for v := range vs {
				if e.mayBeNil(st, v, d+1) {
					return true
				}
			}
			return false
		}
	}
	return true
}

func (e *Eng) lvNil(st *State, t *Term, d int) bool {
	li := e.lvs[t]
	if li == nil || li.init == nil {
		return false
	}
	if e.mayBeNil(st, li.init, d+1) {
		return true
	}
	for _, s := range li.steps {
		if predecessor(s.val, t) {
			continue
		}
		if s.val != t && e.mayBeNil(s.st, s.val, d+1) {
			return true
		}
	}
	return false
}

// predecessor: v is the stored block before the block t; the store keeps every predecessor of what it
// has.
func predecessor(v, t *Term) bool {
	return v.op == OpCall && strings.HasSuffix(v.str, ".GetBlock") && len(v.args) > 1 && occurs(v.args[len(v.args)-1], t)
}

// nilInfo: which results of the module's functions are never nil, always or whenever the error
// returned with them is nil.
type nilInfo struct {
	p     *Prog
	named map[string][]*ssa.Function
	done  map[*ssa.Function][]nilRes
	open  map[*ssa.Function]bool

	needed map[needKey]bool
	opt    map[string]bool
}

type nilRes struct{ never, unlessErr, nonneg bool }

// nonneg: the number a function of the module returns is never negative.
func (n *nilInfo) nonneg(name string, i int) bool {
	fs := n.functions(name)
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		rs := n.summary(f)
		if i >= len(rs) || !rs[i].nonneg {
			return false
		}
	}
	return true
}

func (n *nilInfo) functions(name string) []*ssa.Function {
	if n.named == nil {
		n.named = map[string][]*ssa.Function{}
		for _, f := range n.p.Funcs {
			n.named[fname(f)] = append(n.named[fname(f)], f)
		}
	}
	if fs, ok := n.named[name]; ok {
		return fs
	}
	// an interface method: every implementation in the module
	var out []*ssa.Function
	parts := strings.Split(name, ".")
	if len(parts) == 3 {
		if nt := n.p.Named(parts[0], parts[1]); nt != nil {
			if it, ok := nt.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == parts[2] {
						out = (&reachSet{p: n.p}).implementors(it.Method(i))
					}
				}
			}
		}
	}
	n.named[name] = out
	return out
}

func (n *nilInfo) never(name string, i int, unlessErr bool) bool {
	fs := n.functions(name)
	if len(fs) == 0 {
		// a library function: what it returns alone is set; with an error, when that is nil
		return !inModuleName(n.p, name) && (unlessErr || i == 0)
	}
	for _, f := range fs {
		rs := n.summary(f)
		if i >= len(rs) || !rs[i].never && !(unlessErr && rs[i].unlessErr) {
			return false
		}
	}
	return true
}

func inModuleName(p *Prog, name string) bool {
	i := strings.Index(name, ".")
	if i < 0 {
		return false
	}
	for _, pk := range p.Pkgs {
		if pk.Types != nil && pk.Types.Name() == name[:i] && pk.Types.Name() != "binary" {
			return true
		}
	}
	return false
}

func (n *nilInfo) summary(f *ssa.Function) []nilRes {
	if r, ok := n.done[f]; ok {
		return r
	}
	if n.done == nil {
		n.done, n.open = map[*ssa.Function][]nilRes{}, map[*ssa.Function]bool{}
	}
	if n.open[f] || f.Blocks == nil {
		return nil
	}
	n.open[f] = true
	defer delete(n.open, f)
	e := NewEng(n.p, EngCfg{Interval: true, Opaque: func(g *ssa.Function) bool { return g != f && g.Parent() == nil }, Impure: func(string) bool { return true }, Track: func(string) bool { return false }})
	outs := e.Run(f, e.rootArgs(f), newState())
	res := f.Signature.Results()
	rs := make([]nilRes, res.Len())
	for i := range rs {
		rs[i] = nilRes{true, true, isInteger(res.At(i).Type())}
	}
	hasErr := res.Len() > 1 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type())
	for _, o := range outs {
		if o.panicked || len(o.res) != res.Len() {
			continue
		}
		failed := hasErr && e.nilness(o.st, o.res[len(o.res)-1]) == no
		for i := range rs {
			if rs[i].nonneg && !e.entails(o.st, e.in.Int(0), o.res[i]) {
				rs[i].nonneg = false
			}
			if e.mayBeNil(o.st, o.res[i], 0) {
				rs[i].never = false
				if !failed {
					rs[i].unlessErr = false
				}
			}
		}
	}
	if len(e.problems) > 0 || !hasErr {
		for i := range rs {
			rs[i].unlessErr = false
			rs[i].never = rs[i].never && len(e.problems) == 0
			rs[i].nonneg = rs[i].nonneg && len(e.problems) == 0
		}
	}
	n.done[f] = rs
	return rs
}

func occurs(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}

// checked: the first reference of an input; that a key input has one is the rule output-references
// (T02), established before the inputs are looked at.
func (e *Eng) checked(h *hazard) bool {
	return h.a == e.in.Int(0) && h.n.op == OpLen && h.n.args[0].op == OpField && h.n.args[0].str == "OutputIndexes"
}

// needs: f follows its pointer parameter i, or hands it on to a function that does, without asking
// whether it is nil.
func (n *nilInfo) needs(f *ssa.Function, i int) bool {
	k := needKey{f, i}
	if v, ok := n.needed[k]; ok {
		return v
	}
	if n.needed == nil {
		n.needed = map[needKey]bool{}
	}
	n.needed[k] = false
	p := f.Params[i]
	if p.Referrers() == nil {
		return false
	}
	need := false
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			return false
		case *ssa.FieldAddr:
			need = true
		case *ssa.UnOp:
			need = need || x.Op == token.MUL
		case *ssa.Store:
			need = need || x.Addr == p
		case *ssa.IndexAddr:
			need = true
		case ssa.CallInstruction:
			if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && inModule(funcPkgPath(g)) {
				for j, a := range x.Common().Args {
					if a == p && j < len(g.Params) {
						need = need || n.needs(g, j)
					}
				}
			}
		}
	}
	n.needed[k] = need
	return need
}

type needKey struct {
	f *ssa.Function
	i int
}

// optional: a field of pointer type that some function asks about being nil.
func (n *nilInfo) optional(t *Term) bool {
	if n.opt == nil {
		n.opt = map[string]bool{}
		for _, f := range n.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
						for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
							if c, ok := pair[1].(*ssa.Const); ok && c.IsNil() {
								if k := fieldKey(pair[0]); k != "" {
									n.opt[k] = true
								}
							}
						}
					}
				}
			}
		}
	}
	base := t.args[0]
	if base.typ == nil {
		return false
	}
	return n.opt[typeStr(derefType(base.typ))+"."+t.str]
}

func fieldKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
				return typeStr(derefType(fa.X.Type())) + "." + st.Field(fa.Field).Name()
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return typeStr(x.X.Type()) + "." + st.Field(x.Field).Name()
		}
	}
	return ""
}
