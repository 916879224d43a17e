package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock analysis: for every entry point of the module, the set of locks held is followed through all calls
// (static, interface, closures), separately for every path. A lock is named by the field that holds it.

type lval struct { // what is known about a value
	fn    *ssa.Function
	free  []lval // bindings of its free variables
	lock  string
	guard string // the guarded field this value was loaded from
	cell  *lval
}

func (v lval) String() string {
	s := ""
	if v.fn != nil {
		s = "f:" + v.fn.String()
		for _, x := range v.free {
			s += "," + x.String()
		}
	}
	if v.lock != "" {
		s += "l:" + v.lock
	}
	if v.guard != "" {
		s += "g:" + v.guard
	}
	if v.cell != nil {
		s += "&" + v.cell.String()
	}
	return s
}

type heldLock struct {
	class string
	write bool
}

type deferred struct {
	in  *ssa.Defer
	fr  *lframe
	key string
}

type lstate struct {
	held   []heldLock
	acq    string // classes acquired since the entry point, in order
	defers []deferred
}

func (s lstate) key() string {
	var sb strings.Builder
	for _, h := range s.held {
		fmt.Fprintf(&sb, "%s/%v ", h.class, h.write)
	}
	sb.WriteString("|" + s.acq + "|")
	for _, d := range s.defers {
		sb.WriteString(d.key + ";")
	}
	return sb.String()
}

func (s lstate) holds(class string) (write, ok bool) {
	for _, h := range s.held {
		if h.class == class {
			return h.write, true
		}
	}
	return
}

func (s lstate) with(h heldLock, own bool) lstate {
	r := s
	r.held = append(append([]heldLock{}, s.held...), h)
	if own && !strings.Contains(" "+s.acq+" ", " "+h.class+" ") {
		r.acq = strings.TrimSpace(s.acq + " " + h.class)
	}
	return r
}

type lframe struct {
	fn     *ssa.Function
	params []lval
	free   []lval
	la     *lockAna
	depth  int
}

type lockEv struct {
	kind, class string
	fn          *ssa.Function
	pos         token.Pos
	st          lstate
	root        *ssa.Function
}

type lockAna struct {
	p        *Prog
	guards   map[string]string // guarded field -> lock class
	root     *ssa.Function
	inner    bool
	memo     map[string][]lstate
	active   map[string]bool
	evs      []lockEv
	seen     map[string]bool
	problems []string
	impls    map[string][]*ssa.Function
	taken    []*ssa.Function
	fns      map[string]bool
	edges    map[[2]string]lockEv
}

func isSyncLock(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func ownerName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	pk := ""
	if n.Obj().Pkg() != nil {
		pk = n.Obj().Pkg().Name() + "."
	}
	return pk + n.Obj().Name()
}

func fieldPath(fa *ssa.FieldAddr) string {
	s := derefType(fa.X.Type()).Underlying().(*types.Struct)
	o := ownerName(fa.X.Type())
	// a field of an anonymous or embedded struct belongs to the outer one
	if o == "" {
		if g, ok := fa.X.(*ssa.FieldAddr); ok {
			return fieldPath(g) + "." + s.Field(fa.Field).Name()
		}
	}
	return o + "." + s.Field(fa.Field).Name()
}

func (fr *lframe) eval(v ssa.Value, d int) lval {
	if d > 8 {
		return lval{}
	}
	switch x := v.(type) {
	case *ssa.Function:
		return lval{fn: x}
	case *ssa.MakeClosure:
		r := lval{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.free = append(r.free, fr.eval(b, d+1))
		}
		return r
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.params) {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	case *ssa.FieldAddr:
		if isSyncLock(derefType(x.Type())) {
			return lval{lock: fieldPath(x)}
		}
		if fr.guarded(x) != "" {
			return lval{cell: &lval{guard: fieldPath(x)}}
		}
		if s, ok := derefType(x.Type()).(*types.Named); ok && s != nil {
			return lval{}
		}
	case *ssa.Global:
		if isSyncLock(derefType(x.Type())) {
			return lval{lock: x.Pkg.Pkg.Name() + "." + x.Name()}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			in := fr.eval(x.X, d+1)
			if in.lock != "" {
				return in
			}
			if in.cell != nil {
				return *in.cell
			}
		}
	case *ssa.Alloc:
		if isSyncLock(derefType(x.Type())) {
			return lval{lock: fname(fr.fn) + "." + x.Comment}
		}
		var stored []lval
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				stored = append(stored, fr.eval(s.Val, d+1))
			}
		}
		if len(stored) == 1 {
			return lval{cell: &stored[0]}
		}
	case *ssa.MakeInterface:
		return fr.eval(x.X, d+1)
	case *ssa.ChangeType:
		return fr.eval(x.X, d+1)
	case *ssa.ChangeInterface:
		return fr.eval(x.X, d+1)
	case *ssa.Slice:
		return fr.eval(x.X, d+1)
	case *ssa.Phi:
		r := fr.eval(x.Edges[0], d+3)
		for _, e := range x.Edges[1:] {
			if y := fr.eval(e, d+3); y.guard != "" && r.guard == "" {
				r = y
			} else if y.String() != r.String() && r.guard == "" {
				return lval{}
			}
		}
		return r
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && d < 4 && inModule(funcPkgPath(f)) && x.Type() != nil && carries(x.Type()) {
			sub := fr.enter(f, fr.bindAt(&x.Call, d+3), nil)
			var got *lval
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					y := sub.eval(ret.Results[0], d+4)
					if got != nil && got.String() != y.String() {
						return lval{}
					}
					got = &y
				}
			}
			if got != nil {
				return *got
			}
		}
	}
	return lval{}
}

// carries: values of the type can be locks, functions or guarded contents.
func carries(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature, *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		return isSyncLock(t)
	default:
		_ = u
	}
	return false
}

// guarded: the guarded field a FieldAddr denotes, "" when the object was made by this function.
func (fr *lframe) guarded(fa *ssa.FieldAddr) string {
	p := fieldPath(fa)
	if _, ok := fr.la.guards[p]; !ok {
		return ""
	}
	base := fa.X
	for {
		if g, ok := base.(*ssa.FieldAddr); ok {
			base = g.X
			continue
		}
		break
	}
	if _, fresh := base.(*ssa.Alloc); fresh {
		return ""
	}
	return p
}

func (fr *lframe) bind(c *ssa.CallCommon) []lval { return fr.bindAt(c, 1) }

func (fr *lframe) bindAt(c *ssa.CallCommon, d int) []lval {
	var r []lval
	for _, a := range c.Args {
		r = append(r, fr.eval(a, d))
	}
	return r
}

func (fr *lframe) enter(fn *ssa.Function, params, free []lval) *lframe {
	return &lframe{fn: fn, params: params, free: free, la: fr.la, depth: fr.depth + 1}
}

func (la *lockAna) ev(kind, class string, fn *ssa.Function, pos token.Pos, st lstate) {
	k := kind + class + fmt.Sprint(pos) + st.key()
	if la.seen[k] {
		return
	}
	la.seen[k] = true
	la.evs = append(la.evs, lockEv{kind, class, fn, pos, st, la.root})
}

// run analyses a function from a set of held locks; the results are those at its returns.
func (fr *lframe) run(s0 lstate) []lstate {
	la := fr.la
	s0.defers = nil
	key := fmt.Sprint(la.root) + fr.fn.String() + "|" + s0.key()
	for _, p := range append(append([]lval{}, fr.params...), fr.free...) {
		key += "|" + p.String()
	}
	if r, ok := la.memo[key]; ok {
		return r
	}
	if la.active[key] || fr.depth > 40 {
		return []lstate{s0}
	}
	la.active[key] = true
	defer delete(la.active, key)
	la.fns[fname(fr.fn)] = true
	type item struct {
		b *ssa.BasicBlock
		s lstate
	}
	work := []item{{fr.fn.Blocks[0], s0}}
	done := map[string]bool{}
	var outs []lstate
	outKey := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index) + it.s.key()
		if done[k] {
			continue
		}
		done[k] = true
		if len(done) > 20000 {
			la.problems = append(la.problems, "too many lock states in "+fname(fr.fn))
			break
		}
		states := []lstate{it.s}
		for _, in := range it.b.Instrs {
			var next []lstate
			nk := map[string]bool{}
			for _, s := range states {
				for _, n := range fr.step(in, s) {
					if !nk[n.key()] {
						nk[n.key()] = true
						next = append(next, n)
					}
				}
			}
			states = next
			if ret, ok := in.(*ssa.Return); ok {
				_ = ret
				for _, s := range states {
					s.defers = nil
					if !outKey[s.key()] {
						outKey[s.key()] = true
						outs = append(outs, s)
					}
				}
			}
		}
		for _, s := range states {
			for _, b := range it.b.Succs {
				work = append(work, item{b, s})
			}
		}
	}
	la.memo[key] = outs
	return outs
}

func (fr *lframe) access(class, field string, write bool, pos token.Pos, s lstate) {
	kind := "read"
	if write {
		kind = "write"
	}
	fr.la.ev(kind+" "+field, class, fr.fn, pos, s)
}

func (fr *lframe) touch(v ssa.Value, write bool, pos token.Pos, s lstate) {
	x := fr.eval(v, 0)
	if x.guard != "" {
		fr.access(fr.la.guards[x.guard], x.guard, write, pos, s)
	}
}

func (fr *lframe) step(in ssa.Instruction, s lstate) []lstate {
	one := []lstate{s}
	switch x := in.(type) {
	case *ssa.Store:
		if v := fr.eval(x.Addr, 0); v.cell != nil && v.cell.guard != "" {
			fr.access(fr.la.guards[v.cell.guard], v.cell.guard, true, x.Pos(), s)
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			fr.touch(ia.X, true, x.Pos(), s)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if v := fr.eval(x.X, 0); v.cell != nil && v.cell.guard != "" {
				fr.access(fr.la.guards[v.cell.guard], v.cell.guard, false, x.Pos(), s)
			}
		}
	case *ssa.MapUpdate:
		fr.touch(x.Map, true, x.Pos(), s)
	case *ssa.Lookup:
		fr.touch(x.X, false, x.Pos(), s)
	case *ssa.Range:
		fr.touch(x.X, false, x.Pos(), s)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			fr.touch(r.X, false, r.Pos(), s)
		}
	case *ssa.IndexAddr:
		fr.touch(x.X, false, x.Pos(), s)
	case *ssa.Index:
		fr.touch(x.X, false, x.Pos(), s)
	case *ssa.Defer:
		if len(s.defers) > 6 {
			fr.la.problems = append(fr.la.problems, "deferred calls pile up in "+fname(fr.fn))
			return one
		}
		s.defers = append(append([]deferred{}, s.defers...), deferred{x, fr, fmt.Sprint(x.Pos())})
		return []lstate{s}
	case *ssa.RunDefers:
		states := one
		for len(states) > 0 && len(states[0].defers) > 0 {
			var next []lstate
			for _, t := range states {
				n := len(t.defers)
				if n == 0 {
					next = append(next, t)
					continue
				}
				d := t.defers[n-1]
				t.defers = t.defers[: n-1 : n-1]
				next = append(next, fr.call(&d.in.Call, d.in.Pos(), t)...)
			}
			states = next
		}
		return states
	case *ssa.Go:
		// its own entry point
		for _, t := range fr.targets(&x.Call) {
			fr.enter(t.fn, t.params, t.free).runRoot()
		}
	case *ssa.Call:
		return fr.call(&x.Call, x.Pos(), s)
	}
	return one
}

type ltarget struct {
	fn           *ssa.Function
	params, free []lval
}

func (fr *lframe) targets(c *ssa.CallCommon) (ts []ltarget) {
	if c.IsInvoke() {
		args := append([]lval{fr.eval(c.Value, 1)}, fr.bind(c)...)
		for _, f := range fr.la.implsOf(c) {
			ts = append(ts, ltarget{f, args, nil})
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if f.Blocks != nil && (inModule(funcPkgPath(f)) || f.Synthetic != "") {
			free := []lval(nil)
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				free = fr.eval(mc, 1).free
			}
			ts = append(ts, ltarget{f, fr.bind(c), free})
		}
		return
	}
	if v := fr.eval(c.Value, 0); v.fn != nil {
		if v.fn.Blocks != nil {
			ts = append(ts, ltarget{v.fn, fr.bind(c), v.free})
		}
		return
	}
	for _, f := range fr.la.taken {
		if types.Identical(f.Signature, c.Signature()) && f.Signature.Recv() == nil && len(f.FreeVars) == 0 {
			ts = append(ts, ltarget{f, fr.bind(c), nil})
		}
	}
	return
}

func (la *lockAna) implsOf(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := la.impls[k]; ok {
		return r
	}
	var r []*ssa.Function
	for _, pk := range la.p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, it) {
					continue
				}
				if f := la.p.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil && f.Blocks != nil {
					r = append(r, f)
					break
				}
			}
		}
	}
	la.impls[k] = r
	return r
}

func (fr *lframe) call(c *ssa.CallCommon, pos token.Pos, s lstate) []lstate {
	la := fr.la
	// built-in functions that touch guarded contents
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for i, a := range c.Args {
			fr.touch(a, i == 0 && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear"), pos, s)
		}
		return []lstate{s}
	}
	// operations on locks
	op, recv := "", ssa.Value(nil)
	if c.IsInvoke() {
		if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Locker" {
			op, recv = c.Method.Name(), c.Value
		}
	} else if f := c.StaticCallee(); f != nil && funcPkgPath(f) == "sync" && f.Signature.Recv() != nil && isSyncLock(f.Signature.Recv().Type()) && (f.Blocks == nil || !strings.Contains(f.Synthetic, "bound")) {
		op, recv = f.Name(), c.Args[0]
	}
	if op != "" {
		v := fr.eval(recv, 0)
		if v.lock == "" && v.cell != nil {
			v = *v.cell
		}
		if v.lock == "" {
			la.problems = append(la.problems, fmt.Sprintf("%s: a lock that cannot be named is used", la.p.At(pos)))
			return []lstate{s}
		}
		return fr.lockOp(op, v.lock, pos, s)
	}
	if c.IsInvoke() {
		la.ev("invoke "+ownerName(c.Value.Type())+"."+c.Method.Name(), "", fr.fn, pos, s)
	} else if f := c.StaticCallee(); f != nil {
		la.ev("invoke "+fname(f), "", fr.fn, pos, s)
	}
	ts := fr.targets(c)
	if len(ts) == 0 {
		// code outside of the module may call the functions it is given
		states := []lstate{s}
		for _, a := range c.Args {
			if v := fr.eval(a, 0); v.fn != nil && v.fn.Blocks != nil && inModule(funcPkgPath(v.fn)) {
				states = append(states, fr.enter(v.fn, nil, v.free).run(s)...)
			}
			if v := fr.eval(a, 0); v.guard != "" {
				fr.access(la.guards[v.guard], v.guard, false, pos, s)
			}
		}
		return restore(states, s.defers)
	}
	var outs []lstate
	for _, t := range ts {
		outs = append(outs, fr.enter(t.fn, t.params, t.free).run(s)...)
	}
	return restore(outs, s.defers)
}

func restore(ss []lstate, d []deferred) []lstate {
	r := append([]lstate{}, ss...)
	for i := range r {
		r[i].defers = d
	}
	return r
}

func (fr *lframe) lockOp(op, class string, pos token.Pos, s lstate) []lstate {
	la := fr.la
	w, held := s.holds(class)
	switch op {
	case "Lock", "RLock":
		if held {
			la.ev("relock", class, fr.fn, pos, s)
			return []lstate{s}
		}
		for _, h := range s.held {
			e := [2]string{h.class, class}
			if _, ok := la.edges[e]; !ok {
				la.edges[e] = lockEv{"order", class, fr.fn, pos, s, la.root}
			}
		}
		la.ev("acquire", class, fr.fn, pos, s)
		own := la.root != nil && la.root.Signature.Recv() != nil && strings.HasPrefix(class, ownerName(la.root.Signature.Recv().Type())+".")
		return []lstate{s.with(heldLock{class, op == "Lock"}, own)}
	case "Unlock", "RUnlock":
		if !held {
			la.ev("unlock-free", class, fr.fn, pos, s)
			return []lstate{s}
		}
		if w != (op == "Unlock") {
			la.ev("unlock-mode", class, fr.fn, pos, s)
		}
		r := s
		r.held = nil
		for _, h := range s.held {
			if h.class != class {
				r.held = append(r.held, h)
			}
		}
		return []lstate{r}
	case "TryLock", "TryRLock":
		la.problems = append(la.problems, fmt.Sprintf("%s: %s is not modelled", la.p.At(pos), op))
	}
	return []lstate{s}
}

func (fr *lframe) runRoot() []lstate {
	la := fr.la
	old := la.root
	la.root = fr.fn
	outs := fr.run(lstate{})
	for _, o := range outs {
		for _, h := range o.held {
			if la.inner {
				break // may be a helper that takes the lock for its caller
			}
			la.ev("unreleased", h.class, fr.fn, fr.fn.Pos(), o)
		}
	}
	la.root = old
	return outs
}

// lockRun analyses every entry point of the module.
func lockRun(p *Prog) *lockAna {
	la := &lockAna{p: p, guards: guardedFields(p), memo: map[string][]lstate{}, active: map[string]bool{}, seen: map[string]bool{},
		impls: map[string][]*ssa.Function{}, fns: map[string]bool{}, edges: map[[2]string]lockEv{}}
	called := map[*ssa.Function]bool{}
	isTaken := map[*ssa.Function]bool{}
	iface := map[string]bool{} // methods of interfaces of the module
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			if it, ok := pk.Types.Scope().Lookup(n).Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					iface[it.Method(i).Name()] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				var skip ssa.Value
				if ok {
					if g := ci.Common().StaticCallee(); g != nil {
						called[g] = true
						skip = ci.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != skip {
						if _, mc := in.(*ssa.MakeClosure); !mc && !isTaken[g] && inModule(funcPkgPath(g)) {
							isTaken[g] = true
							la.taken = append(la.taken, g)
						}
					}
				}
			}
		}
	}
	var inner []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || isInit(f) {
			continue
		}
		root := !called[f]
		if r := f.Signature.Recv(); r != nil {
			n := ownerName(r.Type())
			n = n[strings.LastIndex(n, ".")+1:]
			if !called[f] && !token.IsExported(n) && !iface[f.Name()] && !ownsLock(r.Type()) {
				root = false // a helper nobody uses
			}
			if token.IsExported(f.Name()) && (token.IsExported(n) || iface[f.Name()] && ownsLock(r.Type())) {
				root = true
			}
		} else if token.IsExported(f.Name()) {
			root = true
		}
		if !root {
			inner = append(inner, f)
			continue
		}
		fr := &lframe{fn: f, la: la}
		fr.runRoot()
	}
	// operations that take the lock of their own structure are operations on their own
	for _, f := range inner {
		if r := f.Signature.Recv(); r != nil && ownsLock(r.Type()) {
			for _, e := range la.evs {
				if e.kind == "acquire" && e.fn == f && strings.HasPrefix(e.class, ownerName(r.Type())+".") {
					la.inner = true
					(&lframe{fn: f, la: la}).runRoot()
					la.inner = false
					break
				}
			}
		}
	}
	return la
}

func ownsLock(t types.Type) bool {
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isSyncLock(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// guardedFields: the fields of the shared structures and the lock that protects each. Every field of a
// structure with one lock that is changed after the structure was made is guarded by that lock.
func guardedFields(p *Prog) map[string]string {
	g := map[string]string{}
	for _, x := range [][3]string{{"cryptonote", "memoryStorage", ""}, {"cryptonote", "BlockChain", ""}, {"config", "checkpoints", ""}, {"p2p", "peerStore", ""}} {
		n := p.Named(x[0], x[1])
		if n == nil {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		lock := ""
		for i := 0; i < s.NumFields(); i++ {
			if isSyncLock(s.Field(i).Type()) {
				lock = ownerName(n) + "." + s.Field(i).Name()
			}
		}
		if lock == "" {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := ownerName(n) + "." + s.Field(i).Name(); !isSyncLock(s.Field(i).Type()) && changedLater(p, f) {
				g[f] = lock
			}
		}
		if x[1] == "peerStore" {
			g["p2p.peerList.peers"] = lock
		}
	}
	// computed once, before the chain is shared; see DESIGN.md
	delete(g, "cryptonote.BlockChain.genesisBlock")
	return g
}

// changedLater: the field, or the map or slice it holds, is written outside of a constructor.
func changedLater(p *Prog, field string) bool {
	la := &lockAna{p: p, guards: map[string]string{field: "?"}}
	for _, f := range p.Funcs {
		fr := &lframe{fn: f, la: la}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fr.guarded(fa) != "" {
						return true
					}
				case *ssa.MapUpdate:
					if fr.eval(x.Map, 0).guard != "" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (e lockEv) where(p *Prog) string {
	s := fname(e.fn)
	if e.root != nil && e.root != e.fn {
		s += " (called from " + fname(e.root) + ")"
	}
	return s
}

func heldString(s lstate) string {
	var r []string
	for _, h := range s.held {
		m := "read"
		if h.write {
			m = "write"
		}
		r = append(r, h.class+" ("+m+")")
	}
	sort.Strings(r)
	if len(r) == 0 {
		return "no lock"
	}
	return strings.Join(r, ", ")
}

func (c *Ctx) lockAna() *lockAna {
	la := lockRun(c.p)
	for f := range la.fns {
		c.fns[f] = true
	}
	for _, p := range la.problems {
		c.ob("analysable", "locks", token.NoPos, false, p)
	}
	return la
}

// lockDiscipline: locks are released on every path, never taken twice, and taken in one order.
func (c *Ctx) lockDiscipline() {
	la := c.lockAna()
	acq := map[string][]lockEv{}
	for _, e := range la.evs {
		if e.kind == "acquire" {
			acq[e.class] = append(acq[e.class], e)
		}
	}
	total := 0
	for _, cl := range sortedKeys(acq) {
		total += len(acq[cl])
	}
	c.need("places where a lock is taken", total, 10)
	kinds := []struct{ kind, rule, text string }{
		{"relock", "not-taken-twice", "takes a lock its goroutine already holds"},
		{"unreleased", "released", "returns with a lock still held"},
		{"unlock-free", "unlock-held", "releases a lock that is not held"},
		{"unlock-mode", "unlock-mode", "releases a read lock as a write lock or the reverse"},
	}
	for _, k := range kinds {
		for _, cl := range sortedKeys(acq) {
			var bad *lockEv
			for i, e := range la.evs {
				if e.kind == k.kind && e.class == cl {
					bad = &la.evs[i]
					break
				}
			}
			if bad != nil {
				c.ob(k.rule, bad.where(c.p), bad.pos, false, k.text+": "+cl)
			} else {
				c.ob(k.rule, cl, token.NoPos, true, "no function "+k.text)
			}
		}
		for i, e := range la.evs {
			if e.kind == k.kind && len(acq[e.class]) == 0 {
				c.ob(k.rule, la.evs[i].where(c.p), e.pos, false, k.text+": "+e.class)
			}
		}
	}
	// order
	adj := map[string][]string{}
	for e := range la.edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	c.counts["lock order edges"] = len(la.edges)
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, n := range adj[from] {
			if reach(n, to, seen) {
				return true
			}
		}
		return false
	}
	bad := false
	var es [][2]string
	for e := range la.edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i][0]+es[i][1] < es[j][0]+es[j][1] })
	for _, e := range es {
		ev := la.edges[e]
		if reach(e[1], e[0], map[string]bool{}) {
			bad = true
			c.ob("one-order", ev.where(c.p), ev.pos, false, "takes "+e[1]+" while holding "+e[0]+", elsewhere they are taken in the other order")
		} else {
			c.ob("one-order", e[0]+" before "+e[1], ev.pos, true, "no path takes them in the other order")
		}
	}
	_ = bad
}

// guardedBy: shared state is touched only under its lock, and every operation does its work in one section.
func (c *Ctx) guardedBy() {
	la := c.lockAna()
	fields := sortedKeys(la.guards)
	c.need("guarded fields", len(fields), 11)
	n := 0
	for _, f := range fields {
		bad := false
		for _, e := range la.evs {
			if e.kind != "read "+f && e.kind != "write "+f {
				continue
			}
			n++
			w, ok := e.st.holds(e.class)
			if !ok || strings.HasPrefix(e.kind, "write") && !w {
				if !bad {
					c.ob("guarded", e.where(c.p), e.pos, false, fmt.Sprintf("%s: %s while holding %s", e.kind, e.class, heldString(e.st)))
				}
				bad = true
			}
		}
		if !bad {
			c.ob("guarded", f, token.NoPos, true, "every access holds "+la.guards[f])
		}
	}
	c.counts["accesses"] = n
	c.need("accesses to guarded fields", n, 25)
	// one section per operation
	classes := map[string]bool{}
	for _, l := range la.guards {
		classes[l] = true
	}
	twice := map[string]bool{}
	for _, e := range la.evs {
		if e.kind != "acquire" || !classes[e.class] || e.root == nil || e.root.Signature.Recv() == nil {
			continue
		}
		if !strings.HasPrefix(e.class, ownerName(e.root.Signature.Recv().Type())+".") {
			continue
		}
		for _, a := range strings.Fields(e.st.acq) {
			if a == e.class && !twice[fname(e.root)] {
				// reading twice is harmless
				twice[fname(e.root)] = true
				c.ob("one-section", e.where(c.p), e.pos, false, "the lock "+e.class+" was already taken and given back in the same operation: what was checked before may have changed")
			}
		}
	}
	for _, cl := range sortedKeys(classes) {
		c.ob("one-section", cl, token.NoPos, true, "operations take it once")
	}
	// the chain changes only while the chain is locked
	nst := 0
	for _, e := range la.evs {
		if e.kind == "invoke cryptonote.Storage.PushBlock" || e.kind == "invoke cryptonote.Storage.Init" {
			nst++
			w, ok := e.st.holds("cryptonote.BlockChain.RWMutex")
			c.ob("chain-locked", e.where(c.p), e.pos, ok && w, "the storage is changed while the chain is locked for writing")
		}
	}
	c.need("changes of the storage", nst, 2)
	c.lockedSpan(la)
}

// lockedSpan: adding a block holds the chain from its first look at the chain to the end.
func (c *Ctx) lockedSpan(la *lockAna) {
	n := 0
	for _, e := range la.evs {
		if e.root == nil || fname(e.root) != "cryptonote.BlockChain.AddBlock" || !strings.HasPrefix(e.kind, "invoke cryptonote.Storage.") {
			continue
		}
		n++
		w, ok := e.st.holds("cryptonote.BlockChain.RWMutex")
		if !ok || !w {
			c.ob("add-locked", e.where(c.p), e.pos, false, "adding a block looks at the storage without holding the chain for writing")
			return
		}
	}
	c.need("looks at the storage while adding", n, 4)
	c.ob("add-locked", "cryptonote.BlockChain.AddBlock", token.NoPos, true, "every look at the storage happens under the lock")
}

func init() {
	register("L01", "Locks are released, not taken twice, and in one order", "", nil, func(c *Ctx) { c.lockDiscipline() })
	register("L02", "Shared state is touched only under its lock", "", nil, func(c *Ctx) { c.guardedBy() })
}
