package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects of what runs for a peer, and what the decisions about a block may depend on.

// outside: library functions whose call affects something beyond the process's own memory, the
// connection it was called for and the log.
func outside(callee string) string {
	pkg := callee
	if i := strings.LastIndex(callee, "/"); i >= 0 {
		if j := strings.Index(callee[i:], "."); j >= 0 {
			pkg = callee[:i+j]
		}
	} else if j := strings.Index(callee, "."); j >= 0 {
		pkg = callee[:j]
	}
	name := strings.TrimPrefix(callee, pkg+".")
	last := name[strings.LastIndex(name, ".")+1:]
	switch pkg {
	case "os":
		for _, ok := range []string{"IsNotExist", "IsExist", "IsTimeout", "IsPermission", "Getpid", "Hostname", "Error", "Unwrap", "Timeout"} {
			if last == ok {
				return ""
			}
		}
		if last == "Exit" {
			return "ends the process"
		}
		return "acts on files, the environment or processes"
	case "os/exec", "os/signal", "syscall", "plugin", "io/ioutil", "net/http", "net/smtp", "net/rpc", "database/sql", "log/syslog", "runtime/debug", "path/filepath", "io/fs", "embed", "text/template", "html/template":
		if pkg == "io/ioutil" && (last == "ReadAll" || last == "NopCloser") {
			return ""
		}
		if pkg == "path/filepath" && !strings.HasPrefix(last, "Walk") && last != "Glob" && last != "EvalSymlinks" {
			return ""
		}
		return "acts outside the process"
	case "net":
		if strings.HasPrefix(last, "Dial") || strings.HasPrefix(last, "Listen") || strings.HasPrefix(last, "Lookup") || strings.HasPrefix(last, "Resolve") || strings.HasPrefix(last, "File") {
			return "opens a connection or asks the network"
		}
	case "runtime":
		if last == "Goexit" || last == "GC" {
			return "affects the whole process"
		}
	}
	if strings.HasPrefix(pkg, "golang.org/x/sys") || strings.HasPrefix(pkg, "github.com/dgraph-io/badger") {
		return "acts outside the process"
	}
	if (pkg == "log" || strings.HasPrefix(pkg, "github.com/sirupsen/logrus") || strings.HasPrefix(pkg, "go.uber.org/zap")) && (strings.HasPrefix(last, "Fatal") || strings.HasPrefix(last, "Panic") || strings.HasPrefix(last, "DPanic") || last == "Exit") {
		return "ends the process"
	}
	return ""
}

func (c *Ctx) peerEffects() {
	r := c.reachFrom([][3]string{{"p2p", "Node", "connectionHandler"}, {"p2p", "Node", "handleNotification"}, {"p2p", "Node", "handleCommand"}})
	if r == nil {
		return
	}
	bad := map[*ssa.Function]bool{}
	for _, x := range r.ext {
		if !inModule(funcPkgPath(x.in)) {
			continue
		}
		c.counts["library calls"]++
		if why := outside(x.callee); why != "" {
			bad[x.in] = true
			c.ob("no-outside-effect", fname(x.in)+" "+x.callee, x.pos, false, why+" ("+r.path(x.in)+")")
		}
	}
	n := 0
	for _, f := range r.order {
		if inModule(funcPkgPath(f)) && f.Synthetic == "" {
			n++
			c.fns[fname(f)] = true
			if !bad[f] {
				c.ob("no-outside-effect", fname(f), f.Pos(), true, "calls nothing that acts outside the node")
			}
		}
	}
	c.need("functions run for a peer", n, 80)
	c.need("library calls", c.counts["library calls"], 150)
}

func (c *Ctx) reachFrom(names [][3]string) *reachSet {
	var roots []*ssa.Function
	for _, x := range names {
		if f := c.fn(x[0], x[1], x[2]); f != nil {
			roots = append(roots, f)
		} else {
			return nil
		}
	}
	return c.p.reach(roots...)
}

// nondet: library functions whose result differs from one node to another.
func nondet(callee string) string {
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "os.", "os/", "syscall.", "runtime.", "net.", "net/", "plugin.", "unsafe.", "hash/maphash.", "github.com/google/uuid."} {
		if strings.HasPrefix(callee, p) {
			return "differs from node to node"
		}
	}
	switch callee {
	case "reflect.Value.MapKeys", "reflect.Value.MapRange", "maps.Keys", "maps.Values", "maps.All":
		return "visits a map in no fixed order"
	case "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.Sleep", "time.AfterFunc", "time.LoadLocation", "time.Time.Local":
		return "depends on when the node runs"
	}
	return ""
}

func (c *Ctx) deterministic() {
	r := c.reachFrom([][3]string{{"cryptonote", "BlockChain", "AddBlock"}, {"cryptonote", "Block", "Deserialize"}, {"cryptonote", "Block", "Hash"}, {"cryptonote", "Block", "HashingBytes"}, {"cryptonote", "Transaction", "Deserialize"}, {"cryptonote", "Transaction", "Hash"}, {"cryptonote", "Transaction", "Serialize"}})
	if r == nil {
		return
	}
	d := &clockFlow{c: c, r: r, seen: map[clockVal]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}}
	bad := map[*ssa.Function]bool{}
	fail := func(f *ssa.Function, rule, what string, pos token.Pos, why string) {
		bad[f] = true
		c.ob(rule, fname(f)+" "+what, pos, false, why+" ("+r.path(f)+")")
	}
	d.fail = fail
	for _, x := range r.ext {
		if why := nondet(x.callee); why != "" && inModule(funcPkgPath(x.in)) {
			fail(x.in, "same-on-every-node", x.callee, x.pos, why)
		}
	}
	for _, f := range r.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						d.callers[g] = append(d.callers[g], ci)
					}
				}
			}
		}
	}
	n, ranges := 0, 0
	for _, f := range r.order {
		if !inModule(funcPkgPath(f)) || f.Synthetic != "" {
			continue
		}
		n++
		c.fns[fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					fail(f, "same-on-every-node", "go", x.Pos(), "work in another goroutine: its order is not fixed")
				case *ssa.Select:
					fail(f, "same-on-every-node", "select", x.Pos(), "a choice between channels is not fixed")
				case *ssa.Send:
					fail(f, "same-on-every-node", "send", x.Pos(), "communication with another goroutine")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						fail(f, "same-on-every-node", "receive", x.Pos(), "communication with another goroutine")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						ranges++
						ok, why := mapOrderFree(x)
						if !ok {
							bad[f] = true
						}
						c.ob("map-order", fname(f)+" range", x.Pos(), ok, why)
					}
				case *ssa.Convert:
					if isPointerToInt(x) {
						fail(f, "same-on-every-node", "address", x.Pos(), "an address becomes a number")
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Object() != nil && !inModule(funcPkgPath(g)) && extName(g.Object().(*types.Func)) == "time.Now" {
						d.clocks++
						d.flow(f, x, 1)
					}
				}
			}
		}
	}
	for _, f := range r.order {
		if inModule(funcPkgPath(f)) && f.Synthetic == "" && !bad[f] {
			c.ob("same-on-every-node", fname(f), f.Pos(), true, "no call, channel or goroutine that differs from node to node")
		}
	}
	c.ob("clock-only-compared", "readings of the clock", token.NoPos, true, fmt.Sprintf("%d reading(s), %d comparison(s)", d.clocks, d.compares))
	c.counts["map iterations"] = ranges
	c.need("functions that decide about blocks", n, 90)
}

func isPointerToInt(x *ssa.Convert) bool {
	b, ok := x.X.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer && isInteger(x.Type())
}

// clockFlow follows a reading of the clock: it may be compared and logged, nothing else.
type clockFlow struct {
	c        *Ctx
	r        *reachSet
	seen     map[clockVal]bool
	callers  map[*ssa.Function][]ssa.CallInstruction
	fail     func(*ssa.Function, string, string, token.Pos, string)
	clocks   int
	compares int
}

// flow: v grows with the clock (sign 1) or shrinks (sign -1); a truth value becomes true or false as
// the clock advances. An advancing clock must not turn an accepted block into a refused one.
func (d *clockFlow) flow(f *ssa.Function, v ssa.Value, sign int) {
	k := clockVal{v, sign}
	if d.seen[k] || v.Referrers() == nil {
		return
	}
	d.seen[k] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			late := x.Block().Succs[0]
			if sign < 0 {
				late = x.Block().Succs[1]
			}
			if refuses(late) {
				d.fail(f, "clock-only-admits", "branch", posOf(x.Cond, x), "refuses because the clock has advanced")
			}
		case *ssa.BinOp:
			s := sign
			if x.Y == v {
				s = -sign
			}
			switch x.Op {
			case token.GTR, token.GEQ:
				d.compares++
				d.flow(f, x, s)
			case token.LSS, token.LEQ:
				d.compares++
				d.flow(f, x, -s)
			case token.ADD:
				d.flow(f, x, sign)
			case token.SUB:
				d.flow(f, x, s)
			case token.MUL, token.QUO, token.SHL, token.SHR:
				if _, ok := x.Y.(*ssa.Const); ok {
					d.flow(f, x, sign)
					continue
				}
				d.fail(f, "clock-only-compared", "arithmetic", x.Pos(), "a reading of the clock is used for more than a comparison")
			default:
				d.fail(f, "clock-only-compared", "arithmetic", x.Pos(), "a reading of the clock is used for more than a comparison")
			}
		case *ssa.UnOp:
			if x.Op == token.NOT || x.Op == token.SUB {
				d.flow(f, x, -sign)
			} else {
				d.flow(f, x, sign)
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Extract, *ssa.MakeInterface:
			d.flow(f, x.(ssa.Value), sign)
		case *ssa.Return:
			for _, ci := range d.callers[f] {
				if cv, ok := ci.(ssa.Value); ok {
					d.flow(ci.Parent(), cv, sign)
				}
			}
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				for _, r := range *a.Referrers() {
					if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
						d.flow(f, ld, sign)
					}
				}
				continue
			case *ssa.IndexAddr:
				if _, ok := a.X.(*ssa.Alloc); ok && types.IsInterface(x.Val.Type()) {
					continue // an argument of a formatting or logging call
				}
			}
			d.fail(f, "clock-only-compared", "store", x.Pos(), "a reading of the clock is kept")
		case *ssa.MapUpdate:
			if strings.HasSuffix(typeStr(x.Map.Type()), "Fields") {
				continue // fields of a log entry
			}
			d.fail(f, "clock-only-compared", "map", x.Pos(), "a reading of the clock is kept")
		case ssa.CallInstruction:
			g := x.Common().StaticCallee()
			if g != nil && !inModule(funcPkgPath(g)) && g.Object() != nil {
				name := extName(g.Object().(*types.Func))
				switch {
				case name == "time.Time.Unix", name == "time.Time.UnixNano", name == "time.Time.UnixMilli", name == "time.Time.UnixMicro", name == "time.Time.Add", name == "time.Time.UTC":
					if cv, ok := x.(ssa.Value); ok {
						d.flow(f, cv, sign)
					}
					continue
				case strings.HasPrefix(name, "github.com/sirupsen/logrus."), strings.HasPrefix(name, "go.uber.org/zap."), strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "errors."):
					continue
				}
			} else if g != nil && len(g.Blocks) > 0 {
				for i, a := range x.Common().Args {
					if a == v && i < len(g.Params) {
						d.flow(g, g.Params[i], sign)
					}
				}
				continue
			}
			d.fail(f, "clock-only-compared", "call", x.Pos(), "a reading of the clock is handed on")
		default:
			d.fail(f, "clock-only-compared", fmt.Sprintf("%T", ref), ref.Pos(), "a reading of the clock is used for more than a comparison")
		}
	}
}

func posOf(v ssa.Value, i ssa.Instruction) token.Pos {
	if v.Pos() != token.NoPos {
		return v.Pos()
	}
	return i.Pos()
}

// refuses: the block leads straight to a return with an error or with false.
func refuses(b *ssa.BasicBlock) bool {
	for n := 0; n < 20; n++ {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Jump:
			b = b.Succs[0]
		case *ssa.Return:
			if len(x.Results) == 0 {
				return false
			}
			v := x.Results[len(x.Results)-1]
			if typeStr(v.Type()) != "error" {
				return false
			}
			c, ok := v.(*ssa.Const)
			if _, phi := v.(*ssa.Phi); phi {
				return false
			}
			return !(ok && c.IsNil())
		default:
			return false
		}
	}
	return false
}

type clockVal struct {
	v    ssa.Value
	sign int
}

// mapOrderFree: what the loop over a map leaves behind is the same for every order of its visits.
// Every visit may collect into lists and maps, count, add up, and take the largest or smallest; it
// may leave the loop early only with values that are the same for every element.
func mapOrderFree(x *ssa.Range) (bool, string) {
	var next *ssa.Next
	for _, ref := range *x.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true, "nothing is visited"
	}
	head := next.Block()
	f := head.Parent()
	// the blocks of the loop: reachable from the head and reaching it
	fwd, back := map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{head: true}
	var w []*ssa.BasicBlock
	w = append(w, head.Succs[0])
	for len(w) > 0 {
		b := w[0]
		w = w[1:]
		if b == head || fwd[b] {
			continue
		}
		fwd[b] = true
		w = append(w, b.Succs...)
	}
	w = append(w, head.Preds...)
	for len(w) > 0 {
		b := w[0]
		w = w[1:]
		if back[b] || !head.Dominates(b) {
			continue
		}
		back[b] = true
		w = append(w, b.Preds...)
	}
	in := func(b *ssa.BasicBlock) bool { return b == head || fwd[b] && back[b] }
	var element func(v ssa.Value, d int) bool // depends on the element visited, or on earlier visits
	element = func(v ssa.Value, d int) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || i.Block() == nil || !in(i.Block()) {
			return false
		}
		if v == next {
			return true
		}
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
		if d > 20 {
			return true
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if _, isGlobal := ld.X.(*ssa.Global); isGlobal {
				return false
			}
			return true
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && element(*op, d+1) {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if !in(b) {
			continue
		}
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case *ssa.Phi:
				if b != head {
					continue
				}
				if ok, why := commutes(y, in, element); !ok {
					return false, why
				}
			case *ssa.Store:
				a, ok := y.Addr.(*ssa.Alloc)
				if ok && in(a.Block()) && a.Block() != head {
					continue // local to the visit
				}
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
					if v, ok := ia.X.(*ssa.Alloc); ok && in(v.Block()) {
						continue
					}
				}
				if call, ok := y.Val.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && loads(call.Call.Args[0], y.Addr) {
						continue // collects
					}
				}
				if bo, ok := y.Val.(*ssa.BinOp); ok && commutative(bo.Op) && (loads(bo.X, y.Addr) || loads(bo.Y, y.Addr)) {
					continue
				}
				if !element(y.Val, 0) && !element(y.Addr, 0) {
					continue // the same for every element
				}
				if underBound(y) {
					continue
				}
				return false, "a visit overwrites what an earlier one stored"
			case *ssa.MapUpdate:
				if mk, ok := y.Map.(ssa.Instruction); ok && in(mk.Block()) && mk.Block() != head {
					continue
				}
				if e, ok := y.Key.(*ssa.Extract); ok && e.Tuple == next && e.Index == 1 {
					continue // keys differ
				}
				if !element(y.Value, 0) {
					continue
				}
				return false, "visits may store different values under the same key"
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return false, "the order of the visits can be observed"
			case *ssa.Return:
				for _, v := range y.Results {
					if element(v, 0) {
						return false, "leaves with a value of the element visited first"
					}
				}
			case *ssa.Call:
				if g := y.Call.StaticCallee(); g != nil {
					n := fname(g)
					if inModule(funcPkgPath(g)) && !writes(n) || !inModule(funcPkgPath(g)) && !strings.Contains(n, "Write") {
						continue
					}
					return false, "calls " + n + ", which may keep what it is given, once for each element"
				}
			}
		}
	}
	// values taken out of the loop on an early exit
	for _, b := range f.Blocks {
		if !in(b) || b == head {
			continue
		}
		for _, s := range b.Succs {
			if in(s) {
				continue
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b && element(ph.Edges[k], 0) {
						return false, "leaves the loop with a value of the element visited first"
					}
				}
			}
			if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				for _, v := range r.Results {
					if element(v, 0) {
						return false, "leaves with a value of the element visited first"
					}
				}
			}
		}
	}
	return true, "the result is the same for every order"
}

func commutative(op token.Token) bool {
	return op == token.ADD || op == token.MUL || op == token.OR || op == token.AND || op == token.XOR
}

func loads(v, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && sameAddr(u.X, addr, 0)
}

func sameAddr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 5 {
		return false
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && x.Field == y.Field {
		return sameAddr(x.X, y.X, d+1)
	}
	u, ok1 := a.(*ssa.UnOp)
	v, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && u.Op == token.MUL && v.Op == token.MUL && sameAddr(u.X, v.X, d+1)
}

// underBound: the store happens only if the value stored is beyond what is stored.
func underBound(y *ssa.Store) bool {
	b := y.Block()
	for _, p := range b.Preds {
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.LSS && c.Op != token.GTR && c.Op != token.LEQ && c.Op != token.GEQ {
			return false
		}
		if !(c.X == y.Val && loads(c.Y, y.Addr) || c.Y == y.Val && loads(c.X, y.Addr)) {
			return false
		}
	}
	return len(b.Preds) > 0
}

// onlyUpdates: inside the loop the accumulator is used for nothing but its own update.
func onlyUpdates(ph *ssa.Phi, in func(*ssa.BasicBlock) bool) bool {
	cands := map[ssa.Value]bool{}
	var collect func(v ssa.Value, d int)
	collect = func(v ssa.Value, d int) {
		if cands[v] || d > 10 {
			return
		}
		cands[v] = true
		if x, ok := v.(*ssa.Phi); ok && x != ph {
			for _, e := range x.Edges {
				collect(e, d+1)
			}
		}
	}
	for k, e := range ph.Edges {
		if in(ph.Block().Preds[k]) {
			collect(e, 0)
		}
	}
	for _, ref := range *ph.Referrers() {
		if ref.Block() == nil || !in(ref.Block()) || ref.Block() == ph.Block() {
			continue
		}
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if o := x.X; o == ssa.Value(ph) && cands[x.Y] || x.Y == ssa.Value(ph) && cands[o] {
					continue
				}
				return false
			case token.EQL, token.NEQ:
				return false
			}
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok && !cands[x] {
				return false
			}
		case *ssa.Store, *ssa.MapUpdate, *ssa.If, *ssa.Return:
			return false
		}
	}
	return true
}

// commutes: an accumulator of the loop whose final value does not depend on the order.
func commutes(ph *ssa.Phi, in func(*ssa.BasicBlock) bool, element func(ssa.Value, int) bool) (bool, string) {
	var step func(v ssa.Value, from *ssa.BasicBlock, d int) bool
	step = func(v ssa.Value, from *ssa.BasicBlock, d int) bool {
		if v == ph || d > 10 {
			return v == ph
		}
		if !element(v, 0) {
			// set to the same value whichever element; fine unless combined with other updates
			return true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			if commutative(x.Op) || x.Op == token.SUB {
				return step(x.X, from, d+1) && !mentionsPhi(x.Y, ph, 0) || x.Op != token.SUB && step(x.Y, from, d+1) && !mentionsPhi(x.X, ph, 0)
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					return step(x.Call.Args[0], from, d+1)
				case "max", "min":
					for _, a := range x.Call.Args {
						if a == ph {
							return true
						}
					}
				}
			}
			if g := x.Call.StaticCallee(); g != nil {
				l := strings.ToLower(g.Name())
				if (strings.HasPrefix(l, "max") || strings.HasPrefix(l, "min")) && len(x.Call.Args) == 2 && (x.Call.Args[0] == ph || x.Call.Args[1] == ph) {
					return true
				}
			}
		case *ssa.Phi:
			for k, e := range x.Edges {
				p := x.Block().Preds[k]
				if e == ph || step(e, p, d+1) {
					continue
				}
				if beyond(e, ph, p, x.Block()) {
					continue
				}
				return false
			}
			return true
		}
		return beyond(v, ph, from, ph.Block())
	}
	if !onlyUpdates(ph, in) {
		return false, fmt.Sprintf("what a visit does depends on the visits before it, through %s", ph.Comment)
	}
	for k, e := range ph.Edges {
		p := ph.Block().Preds[k]
		if !in(p) {
			continue
		}
		if !step(e, p, 0) {
			return false, fmt.Sprintf("the last element visited decides the value of %s", ph.Comment)
		}
	}
	return true, ""
}

func mentionsPhi(v ssa.Value, ph *ssa.Phi, d int) bool {
	if v == ssa.Value(ph) {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok || d > 10 {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && mentionsPhi(*op, ph, d+1) {
			return true
		}
	}
	return false
}

// beyond: coming from block p the value v is larger (or smaller) than the accumulator.
func beyond(v ssa.Value, ph *ssa.Phi, p, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	for b := p; b != nil && !seen[b]; b = b.Idom() {
		seen[b] = true
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if (c.X == v && c.Y == ssa.Value(ph) || c.Y == v && c.X == ssa.Value(ph)) && b != p.Idom() || c.X == v && c.Y == ssa.Value(ph) || c.Y == v && c.X == ssa.Value(ph) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("P07", "What a peer sends stays inside the node", "", nil, func(c *Ctx) { c.peerEffects() })
	register("N01", "Every node decides alike about a block", "", nil, func(c *Ctx) { c.deterministic() })
}
