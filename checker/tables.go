package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Partition tables: a function is evaluated abstractly once per region of its arguments (an interval
// per argument, or a relation between them); in every region every outcome has to be the expected
// expression. Branches are decided by the interval domain; expressions are compared as polynomials
// modulo 2^64 over opaque atoms, so the way a formula is written does not matter.

var two64 = new(big.Int).Lsh(bigOne, 64)

type poly map[string]*big.Int

func (p poly) add(k string, c *big.Int) {
	v := p[k]
	if v == nil {
		v = new(big.Int)
	}
	v = new(big.Int).Add(v, c)
	v.Mod(v, two64)
	if v.Sign() == 0 {
		delete(p, k)
		return
	}
	p[k] = v
}

func (p poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ss []string
	for _, k := range ks {
		ss = append(ss, p[k].String()+"*"+k)
	}
	if len(ss) == 0 {
		return "0"
	}
	return strings.Join(ss, " + ")
}

func mulPoly(a, b poly) poly {
	r := poly{}
	for x, c := range a {
		for y, d := range b {
			var fs []string
			for _, k := range []string{x, y} {
				if k != "" {
					fs = append(fs, strings.Split(k, "·")...)
				}
			}
			sort.Strings(fs)
			r.add(strings.Join(fs, "·"), new(big.Int).Mul(c, d))
		}
	}
	return r
}

func (p poly) konst() (*big.Int, bool) {
	if len(p) == 0 {
		return new(big.Int), true
	}
	if len(p) == 1 && p[""] != nil {
		return p[""], true
	}
	return nil, false
}

func (e *Eng) poly(t *Term) poly {
	one := func(s string) poly { return poly{s: big.NewInt(1)} }
	if e.cmpSt != nil && t.op != OpConst && t.typ != nil && isInteger(t.typ) {
		if l, h := e.bounds(e.cmpSt, t, 0); l != nil && h != nil && l.Cmp(h) == 0 {
			r := poly{}
			r.add("", l)
			return r
		}
	}
	switch t.op {
	case OpConst:
		if c, ok := t.intConst(); ok {
			r := poly{}
			r.add("", c)
			return r
		}
	case OpSum:
		r := poly{}
		r.add("", bigOf(t.val))
		for _, a := range t.args {
			for k, c := range e.poly(a) {
				r.add(k, c)
			}
		}
		return r
	case OpUn:
		if t.str == "-" {
			r := poly{}
			for k, c := range e.poly(t.args[0]) {
				r.add(k, new(big.Int).Neg(c))
			}
			return r
		}
	case OpBin:
		switch t.str {
		case "-", "+":
			r := poly{}
			for k, c := range e.poly(t.args[0]) {
				r.add(k, c)
			}
			for k, c := range e.poly(t.args[1]) {
				if t.str == "-" {
					c = new(big.Int).Neg(c)
				}
				r.add(k, c)
			}
			return r
		case "*":
			a, b := e.poly(t.args[0]), e.poly(t.args[1])
			if len(a)*len(b) <= 256 {
				return mulPoly(a, b)
			}
		case "<<":
			if k, ok := t.args[1].intConst(); ok && k.IsUint64() && k.Uint64() < 64 {
				return mulPoly(e.poly(t.args[0]), poly{"": new(big.Int).Lsh(bigOne, uint(k.Uint64()))})
			}
		case ">>":
			if k, ok := t.args[1].intConst(); ok && k.IsUint64() && k.Uint64() < 64 {
				return one("div(" + e.poly(t.args[0]).String() + ", " + poly{"": new(big.Int).Lsh(bigOne, uint(k.Uint64()))}.String() + ")")
			}
		case "/":
			if x := t.args[0]; e.cmpSt != nil && x.op == OpBin && x.str == "/" && x.typ != nil && isUnsigned(x.typ) {
				// (x / a) / b is x / (a * b) as long as the product does not wrap
				_, ah := e.bounds(e.cmpSt, x.args[1], 0)
				_, bh := e.bounds(e.cmpSt, t.args[1], 0)
				if a, b := e.poly(x.args[1]), e.poly(t.args[1]); ah != nil && bh != nil && new(big.Int).Mul(ah, bh).Cmp(maxU64) <= 0 && len(a)*len(b) <= 256 {
					return one("div(" + e.poly(x.args[0]).String() + ", " + mulPoly(a, b).String() + ")")
				}
			}
			return one("div(" + e.poly(t.args[0]).String() + ", " + e.poly(t.args[1]).String() + ")")
		case "%":
			return one("mod(" + e.poly(t.args[0]).String() + ", " + e.poly(t.args[1]).String() + ")")
		case "&":
			for i := 0; i < 2; i++ {
				if m, ok := t.args[i].intConst(); ok {
					n := new(big.Int).Add(m, bigOne)
					if m.Sign() > 0 && new(big.Int).And(m, n).Sign() == 0 {
						return one("mod(" + e.poly(t.args[1-i]).String() + ", " + poly{"": n}.String() + ")")
					}
				}
			}
		}
	case OpConv:
		if isInteger(t.typ) {
			return one(typeStr(t.typ) + "(" + e.poly(t.args[0]).String() + ")")
		}
	case OpExtract:
		return one("r" + t.str + ":" + e.canon(t.args[0]))
	case OpCall:
		if t.uid == "" {
			return one(e.canon(t))
		}
	case OpJoin:
	}
	return one(fmt.Sprintf("t%d<%s>", t.id, t))
}

// canon names a value; integers as polynomials.
func (e *Eng) canon(t *Term) string {
	switch t.op {
	case OpCall:
		if t.uid == "" {
			var ss []string
			for _, a := range t.args {
				ss = append(ss, e.canon(a))
			}
			if t.str == "max" || t.str == "min" {
				sort.Strings(ss)
			}
			return t.str + "(" + strings.Join(ss, ", ") + ")"
		}
	case OpConst:
		if _, ok := t.intConst(); !ok {
			return t.String()
		}
	case OpIface:
		return e.canon(t.args[0])
	}
	if t.typ != nil && !isInteger(t.typ) {
		return fmt.Sprintf("t%d<%s>", t.id, t)
	}
	return e.poly(t).String()
}

// ---- interval domain -------------------------------------------------------------------------

func (e *Eng) bounds(s *State, t *Term, d int) (lo, hi *big.Int) {
	if c, ok := t.intConst(); ok {
		return c, c
	}
	if l, ok := e.low(t); ok {
		lo = l
	}
	if t.typ != nil && isInteger(t.typ) {
		bits, signed := intBits(t.typ)
		if !signed {
			hi = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(bits)), bigOne)
		}
	}
	tight := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	for g := range s.facts.m {
		if len(g.quant) > 0 {
			continue
		}
		if g.kind == "LE" && g.b == nil && g.a != nil && g.a.op == OpSum && g.a != t && d < 4 && hasTerm(g.a.args, t) {
			// a summand is at most the bound less the least the others add, when the sum cannot wrap
			sum, ok, least := new(big.Int).Set(bigOf(g.a.val)), true, new(big.Int).Set(bigOf(g.a.val))
			skipped := false
			for _, x := range g.a.args {
				if x == t && !skipped {
					skipped = true
					if x.typ == nil || !isInteger(x.typ) {
						ok = false
						break
					}
					if _, h := e.boundsNoSum(s, x, d+2); h != nil {
						sum.Add(sum, h)
					} else {
						ok = false
					}
					continue
				}
				l, h := e.boundsNoSum(s, x, d+2)
				if l == nil || h == nil {
					ok = false
					break
				}
				sum.Add(sum, h)
				least.Add(least, l)
			}
			if ok && sum.Cmp(maxU64) <= 0 {
				tight(nil, new(big.Int).Sub(g.c, least))
			}
			continue
		}
		switch {
		case g.kind == "EQ" && g.a == t && g.b == nil:
			tight(g.c, g.c)
		case g.kind == "LE" && g.a == t && g.b == nil:
			tight(nil, g.c)
		case g.kind == "LE" && g.b == t && g.a == nil:
			tight(new(big.Int).Neg(g.c), nil)
		}
	}
	if d > 6 {
		return
	}
	uns := t.typ != nil && isUnsigned(t.typ)
	maxT := maxU64
	if t.typ != nil && isInteger(t.typ) {
		if b, sg := intBits(t.typ); !sg {
			maxT = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(b)), bigOne)
		}
	}
	ok := func(l, h *big.Int) { // keep only ranges that did not wrap
		if l == nil || h == nil {
			return
		}
		if uns || t.typ == nil {
			if l.Sign() < 0 || h.Cmp(maxT) > 0 {
				return
			}
		}
		tight(l, h)
	}
	switch t.op {
	case OpCall:
		if e.cfg.Sites && (t.str == "max" || t.str == "min") && len(t.args) == 2 && t.uid == "" {
			al, ah := e.bounds(s, t.args[0], d+1)
			bl, bh := e.bounds(s, t.args[1], d+1)
			if t.str == "max" {
				tight(al, nil)
				tight(bl, nil)
				if ah != nil && bh != nil {
					if ah.Cmp(bh) < 0 {
						ah = bh
					}
					tight(nil, ah)
				}
			} else {
				tight(nil, ah)
				tight(nil, bh)
				if al != nil && bl != nil {
					if bl.Cmp(al) < 0 {
						al = bl
					}
					tight(al, nil)
				}
			}
		}
	case OpSum:
		l, h := new(big.Int).Set(bigOf(t.val)), new(big.Int).Set(bigOf(t.val))
		for _, a := range t.args {
			al, ah := e.bounds(s, a, d+1)
			if al == nil || ah == nil {
				return
			}
			l.Add(l, al)
			h.Add(h, ah)
		}
		ok(l, h)
	case OpBin:
		if len(t.args) != 2 {
			return
		}
		al, ah := e.bounds(s, t.args[0], d+1)
		bl, bh := e.bounds(s, t.args[1], d+1)
		if al == nil || ah == nil || bl == nil || bh == nil {
			return
		}
		switch t.str {
		case "-":
			ok(new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl))
		case "*":
			if al.Sign() >= 0 && bl.Sign() >= 0 {
				ok(new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh))
			}
		case "/":
			if al.Sign() >= 0 && bl.Sign() > 0 {
				ok(new(big.Int).Quo(al, bh), new(big.Int).Quo(ah, bl))
			}
		case "%":
			if al.Sign() >= 0 && bl.Sign() > 0 {
				ok(big.NewInt(0), new(big.Int).Sub(bh, bigOne))
			}
		case ">>":
			if al.Sign() >= 0 && bl.Cmp(bh) == 0 && bl.IsUint64() && bl.Uint64() < 256 {
				k := uint(bl.Uint64())
				ok(new(big.Int).Rsh(al, k), new(big.Int).Rsh(ah, k))
			}
		}
	case OpConv:
		if isInteger(t.typ) {
			al, ah := e.bounds(s, t.args[0], d+1)
			if x := t.args[0].typ; e.cfg.Sites && ah == nil && al != nil && x != nil && isInteger(x) {
				if b, sg := intBits(x); sg {
					ah = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(b-1)), bigOne)
				}
			}
			if al != nil && ah != nil && fits(al, t.typ) && fits(ah, t.typ) {
				tight(al, ah)
			}
		}
	}
	return
}

func hasTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// boundsNoSum: bounds without the facts about sums (which would recurse).
func (e *Eng) boundsNoSum(s *State, t *Term, d int) (lo, hi *big.Int) {
	if d < 4 {
		d = 4
	}
	return e.bounds(s, t, d)
}

// decideIv decides an order or an equality by intervals.
func (e *Eng) decideIv(s *State, f *Fact) tri {
	get := func(t *Term) (lo, hi *big.Int) {
		if t == nil {
			return new(big.Int), new(big.Int)
		}
		return e.bounds(s, t, 0)
	}
	al, ah := get(f.a)
	bl, bh := get(f.b)
	switch f.kind {
	case "LE": // a <= b + c
		if ah != nil && bl != nil && ah.Cmp(new(big.Int).Add(bl, f.c)) <= 0 {
			return yes
		}
		if al != nil && bh != nil && al.Cmp(new(big.Int).Add(bh, f.c)) > 0 {
			return no
		}
		// x <= m + k and n*m without wrap: n*m - x >= (n-1)*m - k
		gap := func(x, nm *Term) *big.Int {
			if x == nil || nm == nil || nm.op != OpBin || nm.str != "*" {
				return nil
			}
			for i := 0; i < 2; i++ {
				n, ok := nm.args[i].intConst()
				m := nm.args[1-i]
				if !ok || n.Sign() <= 0 {
					continue
				}
				ml, mh := get(m)
				if ml == nil || mh == nil || ml.Sign() < 0 || new(big.Int).Mul(mh, n).Cmp(maxU64) > 0 {
					continue
				}
				for g := range s.facts.m {
					if g.kind == "LE" && len(g.quant) == 0 && g.a == x && g.b == m {
						d := new(big.Int).Mul(new(big.Int).Sub(n, bigOne), ml)
						return d.Sub(d, g.c)
					}
				}
			}
			return nil
		}
		if d := gap(f.a, f.b); d != nil && new(big.Int).Add(d, f.c).Sign() >= 0 {
			return yes
		}
		if d := gap(f.b, f.a); d != nil && d.Cmp(f.c) > 0 {
			return no
		}
	case "EQ", "NE":
		r := unknown
		if al != nil && bh != nil && al.Cmp(new(big.Int).Add(bh, f.c)) > 0 || ah != nil && bl != nil && ah.Cmp(new(big.Int).Add(bl, f.c)) < 0 {
			r = no
		} else if al != nil && ah != nil && bl != nil && bh != nil && al.Cmp(ah) == 0 && bl.Cmp(bh) == 0 && al.Cmp(new(big.Int).Add(bl, f.c)) == 0 {
			r = yes
		}
		if f.kind == "NE" {
			r = map[tri]tri{yes: no, no: yes, unknown: unknown}[r]
		}
		return r
	}
	if f.kind == "LE" && f.a != nil && f.b != nil {
		if d := e.dist(s, f.a, f.b); d != nil && d.Cmp(f.c) <= 0 {
			return yes
		}
		if d := e.dist(s, f.b, f.a); d != nil && new(big.Int).Neg(d).Cmp(f.c) > 0 {
			return no
		}
	}
	return unknown
}

// dist: the least c for which a <= b + c follows from the order facts by transitivity.
func (e *Eng) dist(s *State, a, b *Term) *big.Int {
	type edge struct {
		to *Term
		c  *big.Int
	}
	adj := map[*Term][]edge{}
	for g := range s.facts.m {
		if len(g.quant) > 0 || g.a == nil || g.b == nil || g.kind != "LE" && g.kind != "EQ" {
			continue
		}
		if g.a.typ != nil && !isInteger(g.a.typ) {
			continue
		}
		adj[g.a] = append(adj[g.a], edge{g.b, g.c})
		if g.kind == "EQ" {
			adj[g.b] = append(adj[g.b], edge{g.a, new(big.Int).Neg(g.c)})
		}
	}
	if len(adj[a]) == 0 {
		return nil
	}
	d := map[*Term]*big.Int{a: new(big.Int)}
	for i := 0; i < 8; i++ {
		ch := false
		for x, es := range adj {
			if d[x] == nil {
				continue
			}
			for _, ed := range es {
				n := new(big.Int).Add(d[x], ed.c)
				if d[ed.to] == nil || n.Cmp(d[ed.to]) < 0 {
					d[ed.to] = n
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	return d[b]
}

// holdsS: a disjunction (||) of conjunctions (&&) of relations is implied by the state.
func (e *Eng) holdsS(st *State, s string, env map[string]*Term) bool {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("expression %q: %v", s, err))
	}
	var rec func(x ast.Expr) bool
	rec = func(x ast.Expr) bool {
		switch y := x.(type) {
		case *ast.ParenExpr:
			return rec(y.X)
		case *ast.BinaryExpr:
			switch y.Op {
			case token.LOR:
				return rec(y.X) || rec(y.Y)
			case token.LAND:
				return rec(y.X) && rec(y.Y)
			}
			return e.decide(st, e.in.cmpFact(y.Op, e.expr(y.X, env), e.expr(y.Y, env), true, true)) == yes
		}
		panic("relation expected: " + s)
	}
	return rec(x)
}

// ---- expressions -----------------------------------------------------------------------------

func (e *Eng) expr(x ast.Expr, env map[string]*Term) *Term {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return e.expr(y.X, env)
	case *ast.BasicLit:
		if y.Kind == token.INT {
			v, _ := new(big.Int).SetString(y.Value, 0)
			return e.in.BigInt(v)
		}
		if y.Kind == token.STRING {
			s, _ := strconv.Unquote(y.Value)
			return e.in.Const(constant.MakeString(s), nil)
		}
	case *ast.Ident:
		switch y.Name {
		case "nil":
			return e.in.Nil()
		case "true", "false":
			return e.in.Bool(y.Name == "true")
		}
		if t, ok := env[y.Name]; ok {
			return t
		}
		panic("expression: unknown name " + y.Name)
	case *ast.IndexExpr:
		return e.in.Elem(e.expr(y.X, env), e.expr(y.Index, env), nil)
	case *ast.BinaryExpr:
		a, b := e.expr(y.X, env), e.expr(y.Y, env)
		switch y.Op {
		case token.ADD:
			return e.in.Add(a, b)
		case token.SUB:
			return e.in.Sub(a, b)
		}
		if y.Op == token.MUL && a.id > b.id {
			a, b = b, a
		}
		ca, oka := a.intConst()
		cb, okb := b.intConst()
		if oka && okb && y.Op == token.MUL {
			return e.in.BigInt(new(big.Int).Mul(ca, cb))
		}
		var ty types.Type = types.Typ[types.Uint64]
		return e.in.mk(Term{op: OpBin, str: y.Op.String(), args: []*Term{a, b}, typ: ty})
	case *ast.CallExpr:
		fn := exprName(y.Fun)
		var as []*Term
		for _, a := range y.Args {
			as = append(as, e.expr(a, env))
		}
		switch fn {
		case "r0", "r1", "r2":
			return e.in.mk(Term{op: OpExtract, str: fn[1:], args: as, typ: types.Typ[types.Uint64]})
		case "uint32":
			return e.convert(as[0], types.Typ[types.Uint64], types.Typ[types.Uint32])
		case "len":
			return e.in.Len(as[0])
		}
		return e.in.mk(Term{op: OpCall, str: fn, args: as, typ: types.Typ[types.Uint64]})
	}
	panic(fmt.Sprintf("expression: %T", x))
}

func (e *Eng) exprS(s string, env map[string]*Term) *Term {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("expression %q: %v", s, err))
	}
	return e.expr(x, env)
}

// assumeS assumes a relation written as an expression.
func (e *Eng) assumeS(st *State, s string, env map[string]*Term) bool {
	x, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("expression %q: %v", s, err))
	}
	for {
		b, ok := x.(*ast.BinaryExpr)
		if !ok {
			panic("relation expected: " + s)
		}
		if b.Op == token.LAND {
			y, ok := b.Y.(*ast.BinaryExpr)
			if !ok {
				panic("relation expected: " + s)
			}
			if !e.assume(st, e.in.cmpFact(y.Op, e.expr(y.X, env), e.expr(y.Y, env), true, true)) {
				return false
			}
			x = b.X
			continue
		}
		return e.assume(st, e.in.cmpFact(b.Op, e.expr(b.X, env), e.expr(b.Y, env), true, true))
	}
}

// ---- tables ----------------------------------------------------------------------------------

type Row struct{ when, want string }

type Table struct {
	rule, pkg, typ, name string
	params               []string // names of the parameters after the receiver
	rows                 []Row    // when: "true" or relations joined by &&; want: results separated by ;
	mean                 string
	args                 map[string]func(e *Eng, t types.Type) *Term // special arguments
	opaque               string
	only                 string // on this network only
	joined               bool   // paths of loops and calls are joined
	globals              bool   // the contents of package variables matter
}

// netState builds the state in which the receiver is the value returned by a constructor.
func (e *Eng) construct(c *Ctx, pkg, fn string) (*Term, *State) {
	f := c.fn(pkg, "", fn)
	if f == nil {
		return nil, nil
	}
	outs := e.Run(f, nil, newState())
	if len(outs) != 1 || len(outs[0].res) == 0 {
		e.problem("%s has %d outcomes", fn, len(outs))
		return nil, nil
	}
	return outs[0].res[0], outs[0].st
}

func (c *Ctx) table(t Table) {
	for _, ctor := range []string{"MainNet", "TestNet"} {
		if t.only != "" && t.only != ctor {
			continue
		}
		c.tableOn(t, ctor)
		if t.typ != "Network" {
			break
		}
	}
}

func (c *Ctx) tableOn(t Table, ctor string) {
	fn := c.fn(t.pkg, t.typ, t.name)
	if fn == nil {
		return
	}
	con := fname(fn)
	if t.typ == "Network" {
		con += " [" + ctor + "]"
	}
	op := nameSet(t.opaque)
	bad := 0
	for _, row := range t.rows {
		e := NewEng(c.p, EngCfg{PathMode: !t.joined, Sites: t.joined, MaxPaths: 400000, Interval: true, Opaque: func(f *ssa.Function) bool { return op[fname(f)] }})
		t0 := time.Now()
		st := newState()
		var args []*Term
		env := map[string]*Term{}
		ps := fn.Params
		if t.typ == "Network" {
			recv, s := e.construct(c, t.pkg, ctor)
			if recv == nil {
				c.ob(t.rule, con, fn.Pos(), false, "the network parameters could not be evaluated: "+strings.Join(e.problems, "; "))
				return
			}
			st = s
			if _, isPtr := fn.Params[0].Type().Underlying().(*types.Pointer); !isPtr {
				recv = e.load(st, recv)
			}
			args = append(args, recv)
			ps = ps[1:]
		} else if t.typ != "" {
			args = append(args, e.in.mk(Term{op: OpParam, str: "recv", typ: fn.Params[0].Type()}))
			env["recv"] = args[0]
			ps = ps[1:]
		}
		if len(ps) != len(t.params) {
			c.ob(t.rule, con, fn.Pos(), false, "the function takes other parameters than this rule knows")
			return
		}
		for i, p := range ps {
			var a *Term
			if mk := t.args[t.params[i]]; mk != nil {
				a = mk(e, p.Type())
			} else {
				a = e.in.mk(Term{op: OpParam, str: t.params[i], typ: p.Type()})
			}
			args = append(args, a)
			env[t.params[i]] = a
		}
		// points become constants
		if x, err := parser.ParseExpr(row.when); err == nil {
			var conj func(x ast.Expr)
			conj = func(x ast.Expr) {
				b, ok := x.(*ast.BinaryExpr)
				if !ok {
					return
				}
				if b.Op == token.LAND {
					conj(b.X)
					conj(b.Y)
				}
				if id, ok := b.X.(*ast.Ident); ok && b.Op == token.EQL && env[id.Name] != nil {
					k := e.expr(b.Y, env)
					for i := range args {
						if args[i] == env[id.Name] {
							args[i] = k
						}
					}
					env[id.Name] = k
				}
			}
			conj(x)
		}
		if t.globals {
			e.importGlobals(fn.Pkg, st)
		}
		if row.when != "true" && !e.assumeS(st, row.when, env) {
			c.ob(t.rule, con, fn.Pos(), false, "region cannot be assumed: "+row.when)
			return
		}
		outs := e.Run(fn, args, st)
		for f := range e.fns {
			c.fns[f] = true
		}
		c.blocks += e.paths
		for _, p := range e.problems {
			c.ob("analysable", con, fn.Pos(), false, "the analysis could not follow the code: "+p)
		}
		wants := strings.Split(row.want, ";")
		ok := len(outs) > 0
		detail := "no outcome"
		for _, o := range outs {
			for k, w := range wants {
				w = strings.TrimSpace(w)
				if w == "_" {
					continue
				}
				if k >= len(o.res) {
					ok, detail = false, "missing result"
					continue
				}
				switch w {
				case "err":
					if e.nilness(o.st, o.res[k]) != no {
						ok, detail = false, fmt.Sprintf("result %d is not an error", k)
					}
				case "nil":
					if e.nilness(o.st, o.res[k]) != yes {
						ok, detail = false, fmt.Sprintf("result %d is not nil", k)
					}
				case "true", "false":
					if d := e.decideTerm(o.st, o.res[k]); d == unknown || (d == yes) != (w == "true") {
						ok, detail = false, fmt.Sprintf("the answer is not %s", w)
					}
				default:
					if strings.HasPrefix(w, ">=") { // at least; "or 0" allows none, an outcome with an error says nothing
						if e.nilness(o.st, o.res[len(o.res)-1]) == no {
							continue
						}
						f := strings.Fields(w)
						min, _ := new(big.Int).SetString(f[1], 10)
						l, h := e.bounds(o.st, o.res[k], 0)
						if len(f) > 2 && l != nil && h != nil && l.Sign() == 0 && h.Sign() == 0 {
							continue
						}
						if l == nil || l.Cmp(min) < 0 {
							ok, detail = false, fmt.Sprintf("result %d is %s, which may be less", k, o.res[k])
						}
						continue
					}
					e.cmpSt = o.st
					if g, x := e.canon(o.res[k]), e.canon(e.exprS(w, env)); g != x {
						if l, h := e.bounds(o.st, o.res[k], 0); l != nil && h != nil && l.Cmp(h) == 0 && x == e.canon(e.in.BigInt(l)) {
							continue
						}
						ok, detail = false, fmt.Sprintf("result %d is %s", k, o.res[k])
						if os.Getenv("KC_DUMP") == t.rule {
							fmt.Printf("GOT  %s\nWANT %s\n", g, x)
						}
					}
				}
			}
		}
		if os.Getenv("KC_TIME") != "" {
			fmt.Println(t.rule, row.when, ok, detail, len(outs), time.Since(t0))
		}
		c.counts["regions"]++
		if !ok {
			bad++
			if bad <= 3 {
				c.ob(t.rule, con, fn.Pos(), false, fmt.Sprintf("where %s: expected %s; %s (%s)", row.when, row.want, detail, t.mean))
			}
			continue
		}
		c.ob(t.rule, con, fn.Pos(), true, "where "+row.when+": "+row.want)
	}
}
