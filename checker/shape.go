package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation with uninterpreted contents: numbers and lengths are constants, the bytes of the
// data are names, the hash of bytes is a name that stands for exactly these bytes. A branch that depends on
// a name cannot be followed, the evaluation gives up (the rule that asked then fails).

type shName struct { // byte number k of the thing called id
	id int
	k  int
}

type shAgg struct{ el []interface{} } // array, structure or the backing of a slice

type shPtr struct {
	in *shAgg
	i  int
}

type shSlice struct {
	in           *shAgg
	off, ln, cap int
}

type shFunc struct {
	fn   *ssa.Function
	free []interface{}
}

type shTuple []interface{}

type shBuffer struct{ b []interface{} } // state of a bytes.Buffer

type shape struct {
	c     *Ctx
	names map[string]int
	steps int
	fns   map[string]bool
}

type shGiveUp struct{ why string }

func (s *shape) giveUp(f string, a ...interface{}) { panic(shGiveUp{fmt.Sprintf(f, a...)}) }

func (s *shape) name(key string) int {
	if n, ok := s.names[key]; ok {
		return n
	}
	s.names[key] = len(s.names) + 1
	return s.names[key]
}

// fresh: a 32 byte value of its own name.
func (s *shape) fresh(key string) *shAgg {
	n := s.name(key)
	a := &shAgg{}
	for k := 0; k < 32; k++ {
		a.el = append(a.el, shName{n, k})
	}
	return a
}

func (s *shape) hash(data []interface{}) *shAgg {
	var b strings.Builder
	b.WriteString("hash ")
	for _, x := range data {
		fmt.Fprintf(&b, "%v ", x)
	}
	return s.fresh(b.String())
}

func shCopy(v interface{}) interface{} {
	if a, ok := v.(*shAgg); ok {
		n := &shAgg{el: make([]interface{}, len(a.el))}
		for i, x := range a.el {
			n.el[i] = shCopy(x)
		}
		return n
	}
	return v
}

func shEqual(a, b interface{}) bool {
	x, ok := a.(*shAgg)
	y, ok2 := b.(*shAgg)
	if ok != ok2 {
		return false
	}
	if !ok {
		return a == b
	}
	if len(x.el) != len(y.el) {
		return false
	}
	for i := range x.el {
		if !shEqual(x.el[i], y.el[i]) {
			return false
		}
	}
	return true
}

func (s *shape) store(p shPtr, v interface{}) {
	if old, ok := p.in.el[p.i].(*shAgg); ok {
		n, ok := v.(*shAgg)
		if !ok || len(n.el) != len(old.el) {
			s.giveUp("a store of another shape")
		}
		src := shCopy(n).(*shAgg)
		for i := range old.el {
			s.store(shPtr{old, i}, src.el[i])
		}
		return
	}
	p.in.el[p.i] = shCopy(v)
}

func (s *shape) zero(t types.Type) interface{} {
	if t.String() == "bytes.Buffer" {
		return &shBuffer{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		}
	case *types.Array:
		if u.Len() > 4096 {
			s.giveUp("a large array")
		}
		a := &shAgg{}
		for i := int64(0); i < u.Len(); i++ {
			a.el = append(a.el, s.zero(u.Elem()))
		}
		return a
	case *types.Struct:
		a := &shAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.el = append(a.el, s.zero(u.Field(i).Type()))
		}
		return a
	case *types.Slice:
		return shSlice{}
	}
	return nil
}

func shWrap(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func (s *shape) bytes(v interface{}) []interface{} {
	switch x := v.(type) {
	case shSlice:
		if x.in == nil {
			return nil
		}
		return x.in.el[x.off : x.off+x.ln]
	case string:
		var r []interface{}
		for i := 0; i < len(x); i++ {
			r = append(r, int64(x[i]))
		}
		return r
	}
	s.giveUp("not a sequence")
	return nil
}

func (s *shape) sliceOf(el []interface{}) shSlice {
	a := &shAgg{}
	for _, x := range el {
		a.el = append(a.el, shCopy(x))
	}
	return shSlice{a, 0, len(el), len(el)}
}

func (s *shape) num(v interface{}) int64 {
	n, ok := v.(int64)
	if !ok {
		s.giveUp("a number that depends on the data")
	}
	return n
}

// call: the results of fn for the given arguments.
func (s *shape) call(fn *ssa.Function, args, free []interface{}, depth int) shTuple {
	if fn.Blocks == nil || depth > 400 {
		s.giveUp("%s cannot be followed", fname(fn))
	}
	s.fns[fname(fn)] = true
	env := map[ssa.Value]interface{}{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	val := func(v ssa.Value) interface{} {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return s.zero(x.Type())
			}
			switch x.Value.Kind() {
			case constant.Int:
				if n, ok := constant.Int64Val(x.Value); ok {
					return n
				}
				n, _ := constant.Uint64Val(x.Value)
				return int64(n)
			case constant.Bool:
				return constant.BoolVal(x.Value)
			case constant.String:
				return constant.StringVal(x.Value)
			}
			s.giveUp("a constant of another kind")
		case *ssa.Function:
			return shFunc{fn: x}
		}
		r, ok := env[v]
		if !ok {
			s.giveUp("%s: the value of %s is not known", fname(fn), v.Name())
		}
		return r
	}
	var deferred []func()
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
next:
	for {
		var phis []interface{}
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for j, q := range b.Preds {
				if q == prev {
					phis = append(phis, val(p.Edges[j]))
					break
				}
			}
		}
		for i, v := range phis {
			env[b.Instrs[i].(*ssa.Phi)] = v
		}
		for _, in := range b.Instrs[len(phis):] {
			if s.steps++; s.steps > 4000000 {
				s.giveUp("%s does not end", fname(fn))
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				box := &shAgg{el: []interface{}{s.zero(derefType(x.Type()))}}
				env[x] = shPtr{box, 0}
			case *ssa.BinOp:
				env[x] = s.binop(x, val(x.X), val(x.Y))
			case *ssa.UnOp:
				v := val(x.X)
				switch x.Op {
				case token.MUL:
					if g, ok := x.X.(*ssa.Global); ok {
						s.giveUp("the variable %s", g.Name())
					}
					p, ok := v.(shPtr)
					if !ok {
						s.giveUp("%s: a nil pointer", fname(fn))
					}
					env[x] = shCopy(p.in.el[p.i])
				case token.NOT:
					env[x] = !v.(bool)
				case token.SUB:
					env[x] = shWrap(-s.num(v), x.Type())
				case token.XOR:
					env[x] = shWrap(^s.num(v), x.Type())
				default:
					s.giveUp("operator %s", x.Op)
				}
			case *ssa.Store:
				p, ok := val(x.Addr).(shPtr)
				if !ok {
					s.giveUp("%s: a nil pointer", fname(fn))
				}
				s.store(p, val(x.Val))
			case *ssa.FieldAddr:
				p, ok := val(x.X).(shPtr)
				if !ok {
					s.giveUp("%s: a nil pointer", fname(fn))
				}
				a, ok := p.in.el[p.i].(*shAgg)
				if !ok {
					s.giveUp("a field of a foreign structure")
				}
				env[x] = shPtr{a, x.Field}
			case *ssa.Field:
				env[x] = val(x.X).(*shAgg).el[x.Field]
			case *ssa.IndexAddr:
				i := int(s.num(val(x.Index)))
				switch v := val(x.X).(type) {
				case shSlice:
					if i < 0 || i >= v.ln {
						s.giveUp("%s: index %d of %d elements at %s", fname(fn), i, v.ln, s.c.p.At(x.Pos()))
					}
					env[x] = shPtr{v.in, v.off + i}
				case shPtr:
					a := v.in.el[v.i].(*shAgg)
					if i < 0 || i >= len(a.el) {
						s.giveUp("%s: index %d of %d elements", fname(fn), i, len(a.el))
					}
					env[x] = shPtr{a, i}
				default:
					s.giveUp("an index into something else")
				}
			case *ssa.Index:
				i := int(s.num(val(x.Index)))
				a, ok := val(x.X).(*shAgg)
				if !ok || i < 0 || i >= len(a.el) {
					s.giveUp("%s: index %d", fname(fn), i)
				}
				env[x] = shCopy(a.el[i])
			case *ssa.Slice:
				env[x] = s.slice(fn, x, val)
			case *ssa.MakeSlice:
				n, m := int(s.num(val(x.Len))), int(s.num(val(x.Cap)))
				if n < 0 || m < n || m > 100000 {
					s.giveUp("%s: a slice of %d elements", fname(fn), n)
				}
				a := &shAgg{}
				for i := 0; i < m; i++ {
					a.el = append(a.el, s.zero(x.Type().Underlying().(*types.Slice).Elem()))
				}
				env[x] = shSlice{a, 0, n, m}
			case *ssa.Convert:
				v := val(x.X)
				if n, ok := v.(int64); ok {
					env[x] = shWrap(n, x.Type())
				} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
					env[x] = s.sliceOf(s.bytes(v))
				} else if _, ok := v.(shName); ok {
					env[x] = v
				} else {
					s.giveUp("a conversion to %s", x.Type())
				}
			case *ssa.ChangeType:
				env[x] = val(x.X)
			case *ssa.MakeInterface:
				env[x] = val(x.X)
			case *ssa.MakeClosure:
				f := shFunc{fn: x.Fn.(*ssa.Function)}
				for _, y := range x.Bindings {
					f.free = append(f.free, val(y))
				}
				env[x] = f
			case *ssa.Extract:
				env[x] = val(x.Tuple).(shTuple)[x.Index]
			case *ssa.Call:
				r := s.callInstr(fn, x.Common(), val, depth)
				if len(r) == 1 {
					env[x] = r[0]
				} else {
					env[x] = r
				}
			case *ssa.Defer:
				com := x.Common()
				deferred = append(deferred, func() { s.callInstr(fn, com, val, depth) })
			case *ssa.RunDefers:
				for i := len(deferred) - 1; i >= 0; i-- {
					deferred[i]()
				}
				deferred = nil
			case *ssa.Return:
				var r shTuple
				for _, y := range x.Results {
					r = append(r, val(y))
				}
				return r
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
				continue next
			case *ssa.If:
				t, ok := val(x.Cond).(bool)
				if !ok {
					s.giveUp("%s: a branch that depends on the data at %s", fname(fn), s.c.p.At(x.Cond.Pos()))
				}
				k := 1
				if t {
					k = 0
				}
				prev, b = b, b.Succs[k]
				continue next
			case *ssa.DebugRef:
			case *ssa.Panic:
				s.giveUp("%s panics", fname(fn))
			default:
				s.giveUp("%s: %s", fname(fn), in)
			}
		}
		s.giveUp("%s: a block without an end", fname(fn))
	}
}

func (s *shape) slice(fn *ssa.Function, x *ssa.Slice, val func(ssa.Value) interface{}) interface{} {
	var in *shAgg
	off, ln, cp := 0, 0, 0
	switch v := val(x.X).(type) {
	case shSlice:
		in, off, ln, cp = v.in, v.off, v.ln, v.cap
	case shPtr:
		in = v.in.el[v.i].(*shAgg)
		ln, cp = len(in.el), len(in.el)
	case string:
		lo, hi := 0, len(v)
		if x.Low != nil {
			lo = int(s.num(val(x.Low)))
		}
		if x.High != nil {
			hi = int(s.num(val(x.High)))
		}
		if lo < 0 || hi < lo || hi > len(v) {
			s.giveUp("%s: slice bounds", fname(fn))
		}
		return v[lo:hi]
	default:
		s.giveUp("%s: a slice of something else", fname(fn))
	}
	lo, hi, mx := 0, ln, cp
	if x.Low != nil {
		lo = int(s.num(val(x.Low)))
	}
	if x.High != nil {
		hi = int(s.num(val(x.High)))
	}
	if x.Max != nil {
		mx = int(s.num(val(x.Max)))
	}
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		s.giveUp("%s: slice bounds %d:%d of %d at %s", fname(fn), lo, hi, cp, s.c.p.At(x.Pos()))
	}
	return shSlice{in, off + lo, hi - lo, mx - lo}
}

func (s *shape) binop(x *ssa.BinOp, a, b interface{}) interface{} {
	if m, ok := a.(bool); ok {
		n := b.(bool)
		switch x.Op {
		case token.EQL:
			return m == n
		case token.NEQ:
			return m != n
		}
		s.giveUp("operator %s", x.Op)
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		if sl, ok := a.(shSlice); ok { // compared with nil
			return (sl.in == nil) == (x.Op == token.EQL)
		}
		if a == nil || b == nil {
			return (a == nil && b == nil) == (x.Op == token.EQL)
		}
	}
	if m, ok := a.(string); ok {
		if n, ok := b.(string); ok && x.Op == token.ADD {
			return m + n
		}
	}
	m, n := s.num(a), s.num(b)
	t := x.X.Type()
	bt, _ := t.Underlying().(*types.Basic)
	uns := bt != nil && bt.Info()&types.IsUnsigned != 0
	switch x.Op {
	case token.ADD:
		return shWrap(m+n, t)
	case token.SUB:
		return shWrap(m-n, t)
	case token.MUL:
		return shWrap(m*n, t)
	case token.QUO, token.REM:
		if n == 0 {
			s.giveUp("a division by zero")
		}
		if uns {
			if x.Op == token.QUO {
				return int64(uint64(m) / uint64(n))
			}
			return int64(uint64(m) % uint64(n))
		}
		if x.Op == token.QUO {
			return shWrap(m/n, t)
		}
		return shWrap(m%n, t)
	case token.AND:
		return m & n
	case token.OR:
		return m | n
	case token.XOR:
		return shWrap(m^n, t)
	case token.AND_NOT:
		return m &^ n
	case token.SHL:
		if uint64(n) >= 64 {
			return int64(0)
		}
		return shWrap(m<<uint64(n), t)
	case token.SHR:
		if uint64(n) >= 64 {
			n = 63
			if uns || m >= 0 {
				return int64(0)
			}
		}
		if uns {
			return int64(uint64(m) >> uint64(n))
		}
		return m >> uint64(n)
	case token.EQL:
		return m == n
	case token.NEQ:
		return m != n
	}
	less, leq := m < n, m <= n
	if uns {
		less, leq = uint64(m) < uint64(n), uint64(m) <= uint64(n)
	}
	switch x.Op {
	case token.LSS:
		return less
	case token.LEQ:
		return leq
	case token.GTR:
		return !leq
	case token.GEQ:
		return !less
	}
	s.giveUp("operator %s", x.Op)
	return nil
}

func (s *shape) callInstr(fn *ssa.Function, com *ssa.CallCommon, val func(ssa.Value) interface{}, depth int) shTuple {
	var args []interface{}
	for _, a := range com.Args {
		args = append(args, val(a))
	}
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			switch v := args[0].(type) {
			case shSlice:
				return shTuple{int64(v.ln)}
			case string:
				return shTuple{int64(len(v))}
			case *shAgg:
				return shTuple{int64(len(v.el))}
			case shPtr:
				return shTuple{int64(len(v.in.el[v.i].(*shAgg).el))}
			}
		case "cap":
			if v, ok := args[0].(shSlice); ok {
				return shTuple{int64(v.cap)}
			}
		case "copy":
			d, src := args[0].(shSlice), s.bytes(args[1])
			n := d.ln
			if len(src) < n {
				n = len(src)
			}
			var tmp []interface{}
			for i := 0; i < n; i++ {
				tmp = append(tmp, shCopy(src[i]))
			}
			for i, v := range tmp {
				s.store(shPtr{d.in, d.off + i}, v)
			}
			return shTuple{int64(n)}
		case "append":
			d, src := args[0].(shSlice), s.bytes(args[1])
			var tmp []interface{}
			for _, v := range src {
				tmp = append(tmp, shCopy(v))
			}
			n := d.ln + len(tmp)
			if n > d.cap {
				c := 2 * d.cap
				if c < n {
					c = n
				}
				a := &shAgg{}
				for _, v := range s.bytes(d) {
					a.el = append(a.el, shCopy(v))
				}
				el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
				for len(a.el) < c {
					a.el = append(a.el, s.zero(el))
				}
				d = shSlice{a, 0, d.ln, c}
			}
			for i, v := range tmp {
				s.store(shPtr{d.in, d.off + d.ln + i}, v)
			}
			d.ln = n
			return shTuple{d}
		case "min", "max":
			m := s.num(args[0])
			for _, a := range args[1:] {
				if n := s.num(a); (n < m) == (bi.Name() == "min") {
					m = n
				}
			}
			return shTuple{m}
		}
		s.giveUp("builtin %s", bi.Name())
	}
	g := com.StaticCallee()
	if g == nil {
		if f, ok := val(com.Value).(shFunc); ok && !com.IsInvoke() {
			return s.call(f.fn, args, f.free, depth+1)
		}
		s.giveUp("%s: a call that is not known at %s", fname(fn), s.c.p.At(com.Pos()))
	}
	name := fname(g)
	switch {
	case strings.HasSuffix(name, "crypto.HashFromBytes"):
		return shTuple{s.hash(s.bytes(args[0]))}
	case strings.HasSuffix(name, "crypto.Keccak"):
		return shTuple{s.sliceOf(s.hash(s.bytes(args[0])).el)}
	case strings.HasSuffix(name, "crypto.Hash.FromBytes"):
		s.store(args[0].(shPtr), s.hash(s.bytes(args[1])))
		return nil
	case strings.HasPrefix(name, "math/bits."):
		return shTuple{s.bits(name[10:], args)}
	case name == "bytes.Join":
		var r []interface{}
		for i, v := range s.bytes(args[0]) {
			if i > 0 {
				r = append(r, s.bytes(args[1])...)
			}
			r = append(r, s.bytes(v)...)
		}
		return shTuple{s.sliceOf(r)}
	case strings.HasPrefix(name, "bytes.Buffer."):
		p, ok := args[0].(shPtr)
		if !ok {
			s.giveUp("a nil buffer")
		}
		buf := p.in.el[p.i].(*shBuffer)
		switch name[13:] {
		case "Write":
			for _, v := range s.bytes(args[1]) {
				buf.b = append(buf.b, v)
			}
			return shTuple{int64(len(s.bytes(args[1]))), nil}
		case "WriteByte":
			buf.b = append(buf.b, args[1])
			return shTuple{nil}
		case "Bytes":
			return shTuple{s.sliceOf(buf.b)}
		case "Len":
			return shTuple{int64(len(buf.b))}
		case "Reset":
			buf.b = nil
			return nil
		case "Grow":
			return nil
		}
	}
	if g.Pkg != nil && inModule(g.Pkg.Pkg.Path()) || g.Parent() != nil {
		var free []interface{}
		if f, ok := com.Value.(*ssa.MakeClosure); ok {
			free = val(f).(shFunc).free
		}
		return s.call(g, args, free, depth+1)
	}
	s.giveUp("%s calls %s", fname(fn), name)
	return nil
}

func (s *shape) bits(name string, args []interface{}) interface{} {
	v := uint64(s.num(args[0]))
	w := 64
	base := name
	for _, x := range []string{"8", "16", "32", "64"} {
		if strings.HasSuffix(name, x) {
			base = strings.TrimSuffix(name, x)
			fmt.Sscan(x, &w)
		}
	}
	n := 0
	for v>>uint(n) != 0 && n < 64 {
		n++
	}
	t, ones := 0, 0
	for t < w && v>>uint(t)&1 == 0 {
		t++
	}
	for i := 0; i < 64; i++ {
		ones += int(v >> uint(i) & 1)
	}
	switch base {
	case "Len":
		return int64(n)
	case "LeadingZeros":
		return int64(w - n)
	case "TrailingZeros":
		return int64(t)
	case "OnesCount":
		return int64(ones)
	}
	s.giveUp("math/bits.%s", name)
	return nil
}

// eval: the results of fn, or the reason why they are not known.
func (s *shape) eval(fn *ssa.Function, args ...interface{}) (r shTuple, why string) {
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(shGiveUp); ok {
				r, why = nil, g.why
				return
			}
			r, why = nil, fmt.Sprint(x)
		}
	}()
	s.steps = 0
	return s.call(fn, args, nil, 0), ""
}
