package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eng is an abstract interpreter over SSA. It runs one root function symbolically over the term
// domain of term.go: facts that hold on every path (must), events that may have happened (may),
// an abstract store, and value-partitioned merging at joins. No target code is executed and no
// solver is involved: branch conditions are kept as normalised facts and decided syntactically.
type Eng struct {
	cmpSt *State // the state two values are compared in (tables)
	p     *Prog
	in    *Interner
	cfg   EngCfg

	loops     map[int]*Loop
	loopIDs   map[string]int
	finfo     map[*ssa.Function]*fnInfo
	obs       []*Obs
	problems  []string
	stack     []*ssa.Function
	paths     int // blocks executed, for evidence
	fns       map[string]bool
	sentinels map[*ssa.Global]bool
	budget    int
	deadline  time.Time                // when set, work past it is given up
	joins     map[*Term]map[*Term]bool // alternatives merged into a join term
	lvs       map[*Term]*lvInfo        // stream mode: loop values
	readers   map[*Term][]*Term        // stream mode: what each reader made goes over
	fps       map[string]int
}

type EngCfg struct {
	Opaque   func(fn *ssa.Function) bool // do not inline
	Impure   func(name string) bool      // opaque repository functions with side effects
	Track    func(name string) bool      // calls recorded as events and observations
	Opened   map[string]bool             // functions inlined although Opaque says no
	Interval bool                        // decide comparisons by intervals as well
	Unroll   bool                        // loops run round by round, their bounds are constants
	MaxPaths int                         // give up after so many path segments
	Sites    bool                        // outcomes of different returns are kept apart
	PathMode bool                        // enumerate paths without loop abstraction (bounded unrolling)
	Streams  bool                        // path mode with summarised loops and modelled byte streams
	MaxIter  int
	TrackSet bool                                  // record field stores as observations
	TrackIdx bool                                  // record index/slice/assert sites as observations
	Fix      func(name string, args []*Term) *bool // answer assumed for an opaque predicate
	Hazards  bool                                  // record instructions that may panic
	Fields   bool                                  // structures are written field by field
	Model    func(fr *frame, b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *State) ([]Out, bool)
}

type Loop struct {
	id      int
	ctx     string
	fn      *ssa.Function
	header  *ssa.BasicBlock
	iter    *Term
	rev     bool
	revInit *Term
	pos     token.Pos
	backs   []*State // stream mode: states at the back edges
}

// Obs is a recorded program point: a tracked call, store, return.
type Obs struct {
	name   string
	args   []*Term
	st     *State
	fn     *ssa.Function
	pos    token.Pos
	ctx    string
	res    []*Term
	depth  int
	active []int
	haz    *hazard
	in     ssa.Instruction
}

type Out struct {
	res      []*Term
	st       *State
	pos      token.Pos
	panicked bool
}

func NewEng(p *Prog, cfg EngCfg) *Eng {
	if cfg.MaxIter == 0 {
		cfg.MaxIter = 40
	}
	e := &Eng{p: p, in: NewInterner(), cfg: cfg, loops: map[int]*Loop{}, loopIDs: map[string]int{}, finfo: map[*ssa.Function]*fnInfo{}, fns: map[string]bool{}, sentinels: map[*ssa.Global]bool{}, budget: 100000, joins: map[*Term]map[*Term]bool{}}
	return e
}

func (e *Eng) problem(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range e.problems {
		if x == s {
			return
		}
	}
	e.problems = append(e.problems, s)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}
func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// sentinel reports whether a global is an error variable assigned exactly once, in the package
// initialiser, from errors.New.
func (e *Eng) sentinel(t *Term) bool {
	if t.op != OpGlobal {
		return false
	}
	g, _ := e.globalOf(t)
	if g == nil {
		return false
	}
	if v, ok := e.sentinels[g]; ok {
		return v
	}
	ok := false
	if pt, isP := g.Type().(*types.Pointer); isP && isErrorType(pt.Elem()) {
		stores, good := 0, 0
		for _, fn := range e.p.Funcs {
			countGlobalStores(fn, g, &stores, &good)
		}
		if g.Pkg != nil {
			if !inModule(g.Pkg.Pkg.Path()) {
				stores, good = 1, 1
			}
		}
		ok = stores == good && good == 1
	}
	e.sentinels[g] = ok
	return ok
}

func countGlobalStores(fn *ssa.Function, g *ssa.Global, stores, good *int) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			*stores++
			if c, ok := s.Val.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && (fname(f) == "errors.New" || fname(f) == "fmt.Errorf") {
					*good++
				}
			}
		}
	}
}

var globalTerms = map[string]*ssa.Global{}

func (e *Eng) globalOf(t *Term) (*ssa.Global, bool) {
	g, ok := globalTerms[t.uid]
	return g, ok
}

// nilness decides x == nil.
func (e *Eng) nilness(s *State, x *Term) tri {
	switch x.op {
	case OpConst:
		if x.isNil() {
			return yes
		}
		return no
	case OpIface, OpMake, OpObj, OpFAddr, OpIAddr, OpFunc, OpClosure, OpComp, OpArr:
		return no
	case OpCall:
		switch x.str {
		case "errors.New", "fmt.Errorf", "utils.AssertionError", "hex.EncodeToString":
			return no
		}
	case OpGlobal:
		if e.sentinel(x) {
			return no
		}
	case OpSlice:
		return unknown
	}
	n := e.in.Nil()
	for g := range s.facts.m {
		if len(g.quant) > 0 || (g.kind != "EQ" && g.kind != "NE") {
			continue
		}
		if (g.a == x && g.b == n) || (g.b == x && g.a == n) {
			if g.kind == "EQ" {
				return yes
			}
			return no
		}
	}
	return unknown
}

// ---- static function info -------------------------------------------------------------------

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*natLoop // by header
	inLoop map[*ssa.BasicBlock][]*natLoop
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.finfo[fn]; ok {
		return fi
	}
	fi := buildInfo(fn)
	e.finfo[fn] = fi
	return fi
}

func buildInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*natLoop{}, inLoop: map[*ssa.BasicBlock][]*natLoop{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, b := range fi.rpo {
		if l := fi.loops[b]; l != nil {
			for x := range l.blocks {
				fi.inLoop[x] = append(fi.inLoop[x], l)
			}
		}
	}
	// outermost first
	for b := range fi.inLoop {
		ls := fi.inLoop[b]
		sort.Slice(ls, func(i, j int) bool {
			if len(ls[i].blocks) != len(ls[j].blocks) {
				return len(ls[i].blocks) > len(ls[j].blocks)
			}
			return ls[i].header.Index < ls[j].header.Index
		})
	}
	// liveness
	for _, b := range fn.Blocks {
		fi.livein[b] = map[ssa.Value]bool{}
	}
	local := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.livein[s] {
					live[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, ph)
					_ = pi
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && local(ph.Edges[k]) {
							live[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && local(*op) {
						live[*op] = true
					}
				}
			}
			// phis of b are defined at entry: not live-in, uses are on the edges
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					delete(live, ph)
				}
			}
			old := fi.livein[b]
			if len(old) != len(live) {
				fi.livein[b] = live
				ch = true
			}
		}
	}
	return fi
}

// phiLive: values live inside the block including its phis.
func (fi *fnInfo) needed(b *ssa.BasicBlock) map[ssa.Value]bool { return fi.livein[b] }

// ---- frames ---------------------------------------------------------------------------------

type frame struct {
	e        *Eng
	fn       *ssa.Function
	fi       *fnInfo
	ctx      string
	active   []int
	rec      bool
	depth    int
	edges    map[[2]int][]*State // from block index, succ ordinal
	outs     map[int][]Out
	lvPlaces map[*ssa.BasicBlock]map[*Term]bool
	lvVers   map[*ssa.BasicBlock]map[string]bool // loop-carried content versions
	newLV    bool
}

func (e *Eng) loopID(fr *frame, h *ssa.BasicBlock) int {
	k := fmt.Sprintf("%s/%s#%d", fr.ctx, fname(fr.fn), h.Index)
	if id, ok := e.loopIDs[k]; ok {
		return id
	}
	id := len(e.loopIDs) + 1
	e.loopIDs[k] = id
	l := &Loop{id: id, ctx: fr.ctx, fn: fr.fn, header: h}
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			l.pos = in.Pos()
			break
		}
	}
	e.loops[id] = l
	l.iter = e.in.mk(Term{op: OpIter, uid: fmt.Sprint(id), loops: fr.activeAt(h), typ: types.Typ[types.Int]})
	return id
}

func (fr *frame) activeAt(b *ssa.BasicBlock) []int {
	a := fr.active
	for _, l := range fr.fi.inLoop[b] {
		k := fmt.Sprintf("%s/%s#%d", fr.ctx, fname(fr.fn), l.header.Index)
		if id, ok := fr.e.loopIDs[k]; ok {
			a = unionInts(a, []int{id})
		}
	}
	return a
}

// Run interprets fn from the given state.
func (e *Eng) Run(fn *ssa.Function, args []*Term, st *State) []Out {
	return e.call(fn, args, nil, st, "", nil, true, 0)
}

func (e *Eng) call(fn *ssa.Function, args, binds []*Term, st *State, ctx string, active []int, rec bool, depth int) []Out {
	e.fns[fname(fn)] = true
	fr := &frame{e: e, fn: fn, fi: e.info(fn), ctx: ctx, active: active, rec: rec, depth: depth, edges: map[[2]int][]*State{}, outs: map[int][]Out{}, lvPlaces: map[*ssa.BasicBlock]map[*Term]bool{}, lvVers: map[*ssa.BasicBlock]map[string]bool{}}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	s0 := st.clone()
	callerEnv, callerDefers := s0.env, s0.defers
	s0.env = map[ssa.Value]*Term{}
	s0.defers = nil
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			s0.env[p] = args[i]
		} else {
			s0.env[p] = e.in.mk(Term{op: OpFresh, str: "param:" + p.Name(), uid: ctx, typ: p.Type()})
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			s0.env[f] = binds[i]
		} else {
			s0.env[f] = e.in.mk(Term{op: OpFresh, str: "free:" + f.Name(), uid: ctx, typ: f.Type()})
		}
	}
	var outs []Out
	if e.cfg.Streams && !e.cfg.Unroll {
		outs = fr.runStreams(s0)
	} else if e.cfg.PathMode {
		outs = fr.runPaths(s0)
	} else {
		outs = fr.runFix(s0)
	}
	// normalise results: split undecided error/bool results, group, merge
	outs = fr.groupOuts(outs)
	for i := range outs {
		outs[i].st.env = callerEnv
		outs[i].st.defers = append([]deferRec{}, callerDefers...)
		pre := ctx + "/"
		if ctx != "" || depth == 0 {
			for k := range outs[i].st.store {
				r := placeRoot(k)
				if r.op == OpObj && r.str == "stack" && strings.HasPrefix(r.uid, pre+fname(fn)+":") {
					delete(outs[i].st.store, k)
				}
			}
		}
	}
	if len(outs) > 1 {
		// distinct env maps per outcome
		for i := range outs {
			m := make(map[ssa.Value]*Term, len(callerEnv)+2)
			for k, v := range callerEnv {
				m[k] = v
			}
			outs[i].st.env = m
		}
	}
	return outs
}

func (fr *frame) runFix(s0 *State) []Out {
	e := fr.e
	fi := fr.fi
	hasLoops := len(fi.loops) > 0
	entry := fi.rpo[0]
	dirty := map[*ssa.BasicBlock]bool{entry: true}
	rec := fr.rec
	if hasLoops {
		fr.rec = false
	}
	var stabilise func(blocks []*ssa.BasicBlock, self *natLoop)
	stabilise = func(blocks []*ssa.BasicBlock, self *natLoop) {
		for pass := 0; ; pass++ {
			if pass > e.cfg.MaxIter {
				e.problem("no fixpoint in %s", fname(fr.fn))
				return
			}
			any := false
			done := map[*ssa.BasicBlock]bool{}
			for _, b := range blocks {
				if done[b] {
					continue
				}
				if l := fi.loops[b]; l != nil && l != self {
					var sub []*ssa.BasicBlock
					need := false
					for _, x := range fi.rpo {
						if l.blocks[x] {
							sub = append(sub, x)
							done[x] = true
							need = need || dirty[x]
						}
					}
					if need {
						any = true
						stabilise(sub, l)
					}
					continue
				}
				if !dirty[b] {
					continue
				}
				dirty[b] = false
				any = true
				fr.process(b, entry, s0, dirty)
			}
			if !any {
				return
			}
		}
	}
	stabilise(fi.rpo, nil)
	if hasLoops && rec {
		fr.rec = true
		for _, b := range fi.rpo {
			fr.process(b, entry, s0, map[*ssa.BasicBlock]bool{})
		}
	}
	var outs []Out
	for _, b := range fi.rpo {
		outs = append(outs, fr.outs[b.Index]...)
	}
	return outs
}

func (fr *frame) process(b, entry *ssa.BasicBlock, s0 *State, dirty map[*ssa.BasicBlock]bool) {
	e := fr.e
	var ins []*State
	if l := fr.fi.loops[b]; l != nil {
		e.loopID(fr, b)
	}
	if b == entry {
		ins = append(ins, s0.clone())
	}
	for pi, p := range b.Preds {
		for k, s := range p.Succs {
			if s != b {
				continue
			}
			// a pred may list the block twice: match the edge ordinals
			if !edgeMatch(p, b, k, pi) {
				continue
			}
			for _, st := range fr.edges[[2]int{p.Index, k}] {
				ins = append(ins, fr.enter(b, p, pi, st))
			}
		}
	}
	if len(ins) == 0 {
		fr.outs[b.Index] = nil
		return
	}
	fr.newLV = false
	groups := fr.partition(b, ins)
	if fr.newLV {
		// a place became loop-carried: start this loop's iteration over
		l := fr.fi.loops[b]
		for key := range fr.edges {
			if l.blocks[fr.fn.Blocks[key[0]]] {
				delete(fr.edges, key)
			}
		}
		for x := range l.blocks {
			fr.outs[x.Index] = nil
		}
		dirty[b] = true
		return
	}
	e.paths += len(groups)
	res := make([][]*State, len(b.Succs))
	fr.outs[b.Index] = nil
	for _, st := range groups {
		fr.block(b, st, res)
	}
	for k, s := range b.Succs {
		key := [2]int{b.Index, k}
		var lst []*State
		for _, st := range res[k] {
			lst = append(lst, fr.leave(b, s, st))
		}
		old := fr.edges[key]
		same := len(old) == len(lst)
		if same {
			for i := range lst {
				if !eqState(old[i], lst[i]) {
					same = false
					break
				}
			}
		}
		if !same {
			fr.edges[key] = lst
			dirty[s] = true
		}
	}
}

func edgeMatch(p, b *ssa.BasicBlock, k, pi int) bool {
	// the n-th occurrence of b among p.Succs corresponds to the n-th occurrence of p among b.Preds
	n := 0
	for i := 0; i < k; i++ {
		if p.Succs[i] == b {
			n++
		}
	}
	m := 0
	for i := 0; i < pi; i++ {
		if b.Preds[i] == p {
			m++
		}
	}
	return n == m
}

// leave turns the history of the loops left on this edge into quantified facts.
func (fr *frame) leave(b, s *ssa.BasicBlock, st *State) *State {
	e := fr.e
	ls := fr.fi.inLoop[b]
	for i := len(ls) - 1; i >= 0; i-- {
		l := ls[i]
		if l.blocks[s] {
			continue
		}
		id := e.loopID(fr, l.header)
		h, ok := st.hist[id]
		if !ok {
			continue
		}
		// "for every i" speaks about the finished iterations; a loop that is left from the middle of
		// an iteration lacks the exit condition that makes them cover the range.
		if h == nil {
			st.setVac(id)
		} else {
			for f := range h.m {
				if hasInt(f.loops, id) {
					st.facts.add(e.in.quantify(f, id))
				}
			}
		}
		delete(st.hist, id)
	}
	return st
}

// enter applies loop bookkeeping and phis for the edge p->b.
func (fr *frame) enter(b, p *ssa.BasicBlock, pi int, st0 *State) *State {
	e := fr.e
	st := st0.clone()
	l := fr.fi.loops[b]
	back := l != nil && b.Dominates(p)
	id := 0
	if l != nil {
		id = e.loopID(fr, b)
	}
	if l != nil && !back {
		st.clearVac(id)
		for _, f := range st.facts.list() {
			if hasInt(f.loops, id) {
				st.facts.del(f)
			}
		}
	}
	own := fmt.Sprintf("%d:", id)
	// evaluate phis in the predecessor environment
	type pv struct {
		ph *ssa.Phi
		t  *Term
	}
	var pvs []pv
	var steps []*Fact
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x := fr.val(st0, ph.Edges[pi])
		if l != nil {
			if dir, init := iterPhi(l, ph); dir != 0 {
				it := e.loops[id].iter
				if !back {
					iv := fr.val(st0, ph.Edges[pi])
					if dir > 0 {
						x = e.in.Add(iv, it)
					} else {
						e.loops[id].rev = true
						if e.loops[id].revInit == nil {
							e.loops[id].revInit = iv
						} else if e.loops[id].revInit != iv {
							e.loops[id].revInit = e.in.mk(Term{op: OpFresh, str: "revinit", uid: fmt.Sprint(id)})
						}
						x = it
					}
				} else if dir > 0 {
					// the same form again for the next iteration: phi = init + Iter
					x = e.in.Sub(x, e.in.Int(1))
				} else {
					x = it
				}
				_ = init
			} else if !fr.plainPhi(ph) {
				invariant := true
				for k, ed := range ph.Edges {
					if b.Dominates(b.Preds[k]) && ed != ssa.Value(ph) {
						invariant = false
					}
				}
				if !invariant {
					lv := e.in.mk(Term{op: OpLV, str: ph.Comment, uid: fmt.Sprintf("%d:%s", id, ph.Name()), loops: fr.activeAt(b), typ: ph.Type()})
					if back {
						steps = append(steps, e.in.fact(Fact{kind: "STEP", a: lv, b: x}))
					} else {
						st.facts.add(e.in.fact(Fact{kind: "INIT", a: lv, b: x}))
					}
					x = lv
				}
			}
		}
		pvs = append(pvs, pv{ph, x})
	}
	if l != nil {
		for k := range fr.lvVers[b] {
			st.ver[k] = e.in.version(fmt.Sprintf("j%s/%s#%d:%s", fr.ctx, fname(fr.fn), bidx(b), k), fr.activeAtOpt(b))
		}
		places := fr.lvPlaces[b]
		lvOf := func(pl *Term) *Term {
			return e.in.mk(Term{op: OpLV, str: pl.String(), uid: fmt.Sprintf("%d:p%d", id, pl.id), loops: fr.activeAt(b), typ: pl.typ})
		}
		var pls []*Term
		for pl := range places {
			pls = append(pls, pl)
		}
		sort.Slice(pls, func(i, j int) bool { return pls[i].id < pls[j].id })
		if back {
			for _, pl := range pls {
				if v, ok := st.store[pl]; ok {
					steps = append(steps, e.in.fact(Fact{kind: "STEP", a: lvOf(pl), b: v}))
				}
			}
			nh := newFactSet()
			for f := range st.facts.m {
				if hasInt(f.loops, id) && !(f.kind == "INIT" && strings.HasPrefix(f.a.uid, own)) {
					nh.add(f)
				}
			}
			for _, f := range steps {
				nh.add(f)
			}
			nh.vac = st.vac
			if old := st.hist[id]; old != nil {
				nh = e.intersectHist(old, nh, id, st, st)
			}
			st.hist[id] = nh
		} else {
			st.hist[id] = nil
		}
		var del []*Fact
		for f := range st.facts.m {
			if hasInt(f.loops, id) {
				if f.kind == "INIT" && strings.HasPrefix(f.a.uid, own) && !hasInt(f.b.loops, id) {
					continue
				}
				del = append(del, f)
			}
		}
		for _, f := range del {
			st.facts.del(f)
		}
		for _, pl := range pls {
			if !back {
				st.facts.add(e.in.fact(Fact{kind: "INIT", a: lvOf(pl), b: e.load(st, pl)}))
			}
			st.store[pl] = lvOf(pl)
			fr.dropChildren(st, pl)
		}
		// store entries keyed by this loop's terms belong to one iteration only
		for pl := range st.store {
			if hasInt(pl.loops, id) && placeKeyLoop(pl, id) {
				delete(st.store, pl)
				if pl.op == OpIAddr {
					e.bumpElem(fr, st, pl.args[0], b)
				}
			}
		}
	}
	// prune env to what is live
	live := fr.fi.livein[b]
	env := make(map[ssa.Value]*Term, len(live)+len(pvs))
	for v := range live {
		if t, ok := st.env[v]; ok {
			env[v] = t
		}
	}
	if l != nil {
		// keep iter phis visible on the back edge
	}
	for _, x := range pvs {
		env[x.ph] = x.t
	}
	st.env = env
	return st
}

// placeKeyLoop: an index in the place path depends on the loop.
func placeKeyLoop(pl *Term, id int) bool {
	for pl.op == OpFAddr || pl.op == OpIAddr {
		if pl.op == OpIAddr && hasInt(pl.args[1].loops, id) {
			return true
		}
		pl = pl.args[0]
	}
	return false
}

// plainPhi: joins at loop headers that keep their value (finite domains: flags, errors, pointers).
func (fr *frame) plainPhi(ph *ssa.Phi) bool {
	t := ph.Type()
	return isBool(t) || isErrorType(t)
}

// iterPhi recognises the variables that can be written with the loop's iteration counter: all that count
// up, or the one variable that counts down. In a loop with several counters where one goes down, the
// iteration counter can stand for one of them only; the others are loop variables with their own steps.
func iterPhi(l *natLoop, ph *ssa.Phi) (int, ssa.Value) {
	dir, init := countingPhi(l, ph)
	if dir >= 0 {
		return dir, init
	}
	var tested []*ssa.Phi
	down := 0
	for _, in := range ph.Block().Instrs {
		q, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		d, _ := countingPhi(l, q)
		if d > 0 {
			return 0, nil
		}
		if d < 0 {
			down++
			if testsPhi(ph.Block(), q) {
				tested = append(tested, q)
			}
		}
	}
	if down > 1 && (len(tested) != 1 || tested[0] != ph) {
		return 0, nil
	}
	return dir, init
}

// testsPhi: the loop header decides on the variable.
func testsPhi(b *ssa.BasicBlock, ph *ssa.Phi) bool {
	c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := c.Cond.(*ssa.BinOp)
	return ok && (bo.X == ssa.Value(ph) || bo.Y == ssa.Value(ph))
}

// countingPhi: every back edge carries phi +/- 1.
func countingPhi(l *natLoop, ph *ssa.Phi) (int, ssa.Value) {
	if !isInteger(ph.Type()) {
		return 0, nil
	}
	if bits, _ := intBits(ph.Type()); bits < 32 {
		return 0, nil // such a counter wraps around
	}
	dir := 0
	var init ssa.Value
	for k, ed := range ph.Edges {
		if l.blocks[ph.Block().Preds[k]] {
			bo, ok := ed.(*ssa.BinOp)
			if !ok {
				return 0, nil
			}
			d := 0
			one := func(v ssa.Value) bool {
				c, ok := v.(*ssa.Const)
				return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Compare(c.Value, token.EQL, constant.MakeInt64(1))
			}
			switch {
			case bo.Op == token.ADD && bo.X == ssa.Value(ph) && one(bo.Y), bo.Op == token.ADD && bo.Y == ssa.Value(ph) && one(bo.X):
				d = 1
			case bo.Op == token.SUB && bo.X == ssa.Value(ph) && one(bo.Y):
				d = -1
			default:
				return 0, nil
			}
			if dir != 0 && dir != d {
				return 0, nil
			}
			dir = d
		} else {
			init = ed
		}
	}
	return dir, init
}

// ---- partition and merge --------------------------------------------------------------------

func (fr *frame) valuation(st *State, v ssa.Value, t *Term) string {
	e := fr.e
	ty := v.Type()
	switch {
	case isBool(ty):
		if b, ok := t.isBoolConst(); ok {
			return fmt.Sprint(b)
		}
		switch e.decideTerm(st, t) {
		case yes:
			return "true"
		case no:
			return "false"
		}
	case isErrorType(ty) || isNilable(ty):
		switch e.nilness(st, t) {
		case yes:
			return "nil"
		case no:
			return "nonnil"
		}
	case isInteger(ty):
		if _, isPhi := v.(*ssa.Phi); isPhi {
			if c, ok := t.intConst(); ok && c.IsInt64() {
				return c.String()
			}
		}
	}
	return ""
}

func (fr *frame) partition(b *ssa.BasicBlock, ins []*State) []*State {
	e := fr.e
	live := fr.fi.livein[b]
	var vals []ssa.Value
	for v := range live {
		vals = append(vals, v)
	}
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			vals = append(vals, ph)
		} else {
			break
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	groups := map[string][]*State{}
	var keys []string
	skip := map[ssa.Value]bool{}
	if fr.fi.loops[b] != nil {
		// a loop-invariant value that some incoming state leaves open does not split the header
		for _, v := range vals {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
				continue
			}
			if _, ok := v.(*ssa.Alloc); ok {
				continue
			}
			for _, st := range ins {
				if t, ok := st.env[v]; ok && fr.valuation(st, v, t) == "" {
					skip[v] = true
				}
			}
		}
	}
	for _, st := range ins {
		var sb strings.Builder
		for _, v := range vals {
			t, ok := st.env[v]
			if !ok || skip[v] {
				continue
			}
			switch x := v.(type) {
			case *ssa.Alloc:
				el := x.Type().(*types.Pointer).Elem()
				if isBool(el) || isErrorType(el) {
					c := e.load(st, t)
					if isBool(el) {
						if bb, ok := c.isBoolConst(); ok {
							fmt.Fprintf(&sb, "%s=%v;", v.Name(), bb)
						}
					} else {
						fmt.Fprintf(&sb, "%s=%d;", v.Name(), e.nilness(st, c))
					}
				}
				continue
			case *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Lookup:
				if s := fr.valuation(st, v, t); s != "" {
					fmt.Fprintf(&sb, "%s=%s;", v.Name(), s)
				}
			}
		}
		k := sb.String()
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], st)
	}
	if len(keys) > 48 {
		e.problem("too many partitions (%d) in %s", len(keys), fname(fr.fn))
		var all []*State
		for _, k := range keys {
			all = append(all, groups[k]...)
		}
		keys = []string{""}
		groups = map[string][]*State{"": all}
	}
	sort.Strings(keys)
	var res []*State
	for _, k := range keys {
		res = append(res, fr.mergeAll(b, groups[k]))
	}
	return res
}

// joinTerm names the merged value deterministically.
func (fr *frame) joinTerm(b *ssa.BasicBlock, what string, typ types.Type, a, c *Term, sa, sc *State) *Term {
	e := fr.e
	if a == c {
		return a
	}
	if typ != nil && isInteger(typ) {
		if m := e.extremum(sa, sc, a, c, typ); m != nil {
			return m
		}
	}
	uid := fmt.Sprintf("%s/%s#%d:%s", fr.ctx, fname(fr.fn), bidx(b), what)
	j := e.in.mk(Term{op: OpJoin, str: what, uid: uid, loops: fr.activeAtOpt(b), typ: typ})
	for _, x := range []struct {
		s *State
		t *Term
	}{{sa, a}, {sc, c}} {
		if x.t == j {
			continue
		}
		if e.joins[j] == nil {
			e.joins[j] = map[*Term]bool{}
		}
		e.joins[j][x.t] = true
		if typ != nil {
			e.addEQ(x.s, j, x.t, isInteger(typ))
			switch e.nilness(x.s, x.t) {
			case no:
				if isNilable(typ) {
					x.s.facts.add(e.eqFact(j, e.in.Nil(), false))
				}
			}
		}
	}
	return j
}

func bidx(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}
func (fr *frame) activeAtOpt(b *ssa.BasicBlock) []int {
	if b == nil {
		return fr.active
	}
	return fr.activeAt(b)
}

func (e *Eng) eqFact(a, b *Term, pol bool) *Fact {
	return e.in.cmpFact(token.EQL, a, b, pol, false)
}

func (e *Eng) addEQ(s *State, a, b *Term, integer bool) {
	s.facts.add(e.in.cmpFact(token.EQL, a, b, true, integer))
}

// merge joins two states at block b (nil: function exit). Both may be modified.
func (fr *frame) merge(b *ssa.BasicBlock, x, y *State) *State {
	e := fr.e
	n := newState()
	for v, t := range x.env {
		u, ok := y.env[v]
		if !ok {
			continue
		}
		if t == u {
			n.env[v] = t
			continue
		}
		n.env[v] = fr.joinTerm(b, v.Name(), v.Type(), t, u, x, y)
	}
	// store
	keys := map[*Term]bool{}
	for k := range x.store {
		keys[k] = true
	}
	for k := range y.store {
		keys[k] = true
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	header := b != nil && fr.fi.loops[b] != nil
	for _, k := range ks {
		a, oka := x.store[k]
		c, okc := y.store[k]
		if !oka {
			a = e.load(x, k)
		}
		if !okc {
			c = e.load(y, k)
		}
		if a == c {
			n.store[k] = a
			continue
		}
		if header && k.op != OpIAddr {
			m := fr.lvPlaces[b]
			if m == nil {
				m = map[*Term]bool{}
				fr.lvPlaces[b] = m
			}
			id := e.loopID(fr, b)
			if !m[k] && !hasInt(k.loops, id) {
				m[k] = true
				fr.newLV = true
			}
		}
		n.store[k] = fr.joinTerm(b, fmt.Sprintf("*%d", k.id), k.typ, a, c, x, y)
	}
	// versions
	vk := map[string]bool{}
	for k := range x.ver {
		vk[k] = true
	}
	for k := range y.ver {
		vk[k] = true
	}
	for k := range vk {
		if x.ver[k] == y.ver[k] {
			n.ver[k] = x.ver[k]
		} else {
			n.ver[k] = e.in.version(fmt.Sprintf("j%s/%s#%d:%s", fr.ctx, fname(fr.fn), bidx(b), k), fr.activeAtOpt(b))
			if header && (strings.HasPrefix(k, "el:") || strings.Contains(k, ".")) {
				m := fr.lvVers[b]
				if m == nil {
					m = map[string]bool{}
					fr.lvVers[b] = m
				}
				if !m[k] {
					m[k] = true
					fr.newLV = true
				}
			}
		}
	}
	// histories
	for k, h := range x.hist {
		g, ok := y.hist[k]
		if !ok {
			continue
		}
		switch {
		case h == nil:
			n.hist[k] = g
		case g == nil:
			n.hist[k] = h
		default:
			n.hist[k] = e.intersectHist(h, g, k, x, y)
		}
	}
	for k := range x.vac {
		if y.vac[k] {
			n.setVac(k)
		}
	}
	n.facts = e.mergeFacts(x, y)
	n.may = unionSets(x.may, y.may)
	if len(x.defers) == len(y.defers) {
		n.defers = append([]deferRec{}, x.defers...)
		for i := range n.defers {
			if x.defers[i].instr != y.defers[i].instr {
				e.problem("conditional defer in %s", fname(fr.fn))
			}
		}
	} else {
		// conditional defers: keep the longer list (its effects may not all happen)
		if len(x.defers) > len(y.defers) {
			n.defers = append([]deferRec{}, x.defers...)
		} else {
			n.defers = append([]deferRec{}, y.defers...)
		}
	}
	n.trace = x.trace
	return n
}

// guardable facts may become the premise of an implication when two branches join.
func guardable0(f *Fact) bool {
	if len(f.quant) > 0 {
		return false
	}
	if f.kind != "T" && f.kind != "F" {
		return false
	}
	switch f.a.op {
	case OpIs, OpCall:
		return true
	}
	return false
}

func (e *Eng) mergeFacts(x, y *State) *FactSet {
	n := intersect(x.facts, y.facts)
	// an already-vacuous loop does not constrain quantified facts
	keepVac := func(a, b *State) {
		for f := range a.facts.m {
			if vacuous(f, b.vac) {
				n.add(f)
			}
		}
	}
	if len(x.vac) > 0 || len(y.vac) > 0 {
		keepVac(x, y)
		keepVac(y, x)
	}
	imp := func(a, b *State) {
		var gs []*Fact
		for f := range a.facts.m {
			if guardable(f) && !b.facts.has(f) && e.decideGuard(b, f) == no {
				gs = append(gs, f)
			}
		}
		for f := range b.facts.m {
			if guardable(f) && !a.facts.has(f) {
				g := e.negate(f)
				if e.decideGuard(b, g) == no {
					dup := false
					for _, h := range gs {
						if h == g {
							dup = true
						}
					}
					if !dup {
						gs = append(gs, g)
					}
				}
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		if len(gs) > 10 {
			gs = gs[:10]
		}
		for f := range a.facts.m {
			if b.facts.has(f) {
				continue
			}
			if f.kind == "IMP" && len(f.quant) == 0 {
				// preserved when b makes the premise false or has the conclusion
				if b.facts.has(f.f) || e.decideGuard(b, f.g) == no || e.stepImplied(b, f.f) {
					n.add(f)
				}
				continue
			}
			special := f.kind == "EQ" && (synthetic(f.a) || synthetic(f.b)) && f.b != nil || f.kind == "STEP"
			if f.kind == "INIT" {
				continue
			}
			for _, g := range gs {
				if g == f || special && !guardable0(g) {
					continue
				}
				n.add(e.in.fact(Fact{kind: "IMP", g: g, f: f, pos: f.pos}))
			}
		}
	}
	imp(x, y)
	imp(y, x)
	// one branch has g=>f, the other has f: kept above; one has it with different premise: dropped
	return n
}

func (e *Eng) negate(f *Fact) *Fact {
	switch f.kind {
	case "T":
		return e.in.fact(Fact{kind: "F", a: f.a})
	case "F":
		return e.in.fact(Fact{kind: "T", a: f.a})
	case "EQ":
		return e.in.fact(Fact{kind: "NE", a: f.a, b: f.b, c: f.c})
	case "NE":
		return e.in.fact(Fact{kind: "EQ", a: f.a, b: f.b, c: f.c})
	case "LE":
		return e.in.fact(Fact{kind: "LE", a: f.b, b: f.a, c: new(big.Int).Sub(new(big.Int).Neg(f.c), bigOne)})
	}
	return f
}

func (e *Eng) decideGuard(s *State, f *Fact) tri { return e.decide(s, f) }

// groupOuts splits undecided error/bool results and merges outcomes of equal valuation.
func (fr *frame) groupOuts(outs []Out) []Out {
	e := fr.e
	sig := fr.fn.Signature.Results()
	for i := 0; i < sig.Len(); i++ {
		ty := sig.At(i).Type()
		bo, er := isBool(ty), isErrorType(ty)
		if !bo && !er {
			continue
		}
		var next []Out
		for _, o := range outs {
			if i >= len(o.res) || o.panicked {
				next = append(next, o)
				continue
			}
			t := o.res[i]
			if bo {
				d := e.decideTerm(o.st, t)
				if d == yes || d == no {
					next = append(next, o)
					continue
				}
				for _, pol := range []bool{true, false} {
					s2 := o.st.clone()
					if e.assumeTerm(s2, t, pol) {
						r := append([]*Term{}, o.res...)
						next = append(next, Out{res: r, st: s2, pos: o.pos})
					}
				}
				continue
			}
			if e.nilness(o.st, t) != unknown {
				next = append(next, o)
				continue
			}
			for _, pol := range []bool{true, false} {
				s2 := o.st.clone()
				s2.facts.add(e.eqFact(t, e.in.Nil(), pol))
				r := append([]*Term{}, o.res...)
				if pol {
					r[i] = e.in.Nil()
				}
				next = append(next, Out{res: r, st: s2, pos: o.pos})
			}
		}
		outs = next
	}
	groups := map[string][]Out{}
	var keys []string
	for _, o := range outs {
		var sb strings.Builder
		if o.panicked {
			sb.WriteString("panic")
		}
		for i := 0; i < sig.Len() && i < len(o.res); i++ {
			ty := sig.At(i).Type()
			switch {
			case isBool(ty):
				fmt.Fprintf(&sb, "%d;", e.decideTerm(o.st, o.res[i]))
			case isErrorType(ty) || isNilable(ty):
				fmt.Fprintf(&sb, "%d;", e.nilness(o.st, o.res[i]))
			case isInteger(ty) && (e.cfg.PathMode):
				fmt.Fprintf(&sb, "%d;", o.res[i].id)
			}
		}
		k := sb.String()
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], o)
	}
	sort.Strings(keys)
	var res []Out
	for _, k := range keys {
		g := groups[k]
		if e.cfg.Streams || e.cfg.Sites && len(g) <= 64 || e.cfg.PathMode && (len(g) <= 64 || fr.depth == 0 && len(g) <= 4096) {
			res = append(res, g...)
			continue
		}
		m := g[0]
		for _, o := range g[1:] {
			// results join under synthetic keys
			for i := range m.res {
				if i < len(o.res) && m.res[i] != o.res[i] {
					if isBool(sig.At(i).Type()) {
						if d := e.decideTerm(m.st, m.res[i]); d != unknown && d == e.decideTerm(o.st, o.res[i]) {
							m.res[i] = e.in.Bool(d == yes)
							continue
						}
					}
					m.res[i] = fr.joinTerm(nil, fmt.Sprintf("result%d", i)+"@"+k, sig.At(i).Type(), m.res[i], o.res[i], m.st, o.st)
				}
			}
			m.st.env = map[ssa.Value]*Term{}
			o.st.env = map[ssa.Value]*Term{}
			m.st.defers, o.st.defers = nil, nil
			st := fr.merge(nil, m.st, o.st)
			m = Out{res: m.res, st: st, pos: m.pos, panicked: m.panicked}
		}
		res = append(res, m)
	}
	return res
}

// ---- bounded path enumeration (no loop abstraction) -----------------------------------------

func (fr *frame) runPaths(s0 *State) []Out {
	e := fr.e
	type item struct {
		b, from *ssa.BasicBlock
		pi      int
		st      *State
		visits  map[int]int
	}
	var outs []Out
	work := []item{{b: fr.fi.rpo[0], st: s0, visits: map[int]int{}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.budget--
		if e.budget < 0 || e.late() {
			e.problem("path budget exhausted in %s", fname(fr.fn))
			return outs
		}
		if it.visits[it.b.Index] > 400 {
			e.problem("loop in %s does not unroll", fname(fr.fn))
			return outs
		}
		st := it.st
		if it.from != nil {
			var pvs []*Term
			var phs []*ssa.Phi
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phs = append(phs, ph)
				pvs = append(pvs, fr.val(st, ph.Edges[it.pi]))
			}
			for i := range phs {
				st.env[phs[i]] = pvs[i]
			}
		}
		e.paths++
		if e.cfg.MaxPaths > 0 && e.paths > e.cfg.MaxPaths {
			e.problem("more than %d path segments in %s", e.cfg.MaxPaths, fname(fr.fn))
			return outs
		}
		res := make([][]*State, len(it.b.Succs))
		fr.outs[it.b.Index] = nil
		fr.block(it.b, st, res)
		outs = append(outs, fr.outs[it.b.Index]...)
		for k, s := range it.b.Succs {
			for _, ns := range res[k] {
				pi := 0
				for j, p := range s.Preds {
					if p == it.b && edgeMatch(it.b, s, k, j) {
						pi = j
					}
				}
				v := make(map[int]int, len(it.visits)+1)
				for a, c := range it.visits {
					v[a] = c
				}
				v[it.b.Index]++
				work = append(work, item{b: s, from: it.b, pi: pi, st: ns.clone(), visits: v})
			}
		}
	}
	return outs
}

var bigOne = big.NewInt(1)

func guardable(f *Fact) bool {
	if len(f.quant) > 0 {
		return false
	}
	switch f.kind {
	case "LE":
		lv := func(t *Term) bool { return t != nil && t.op == OpLV }
		return (lv(f.a) || !synthetic(f.a)) && (lv(f.b) || !synthetic(f.b))
	case "T", "F":
		return !synthetic(f.a) && !synthetic(f.b)
	case "EQ", "NE":
		if f.a != nil && f.b != nil && (f.a.isNil() && perIteration(f.b) || f.b.isNil() && perIteration(f.a)) {
			return true
		}
		return f.a != nil && (f.b == nil || !f.a.isNil() && !f.b.isNil()) && !synthetic(f.a) && !synthetic(f.b)
	}
	return false
}

// perIteration: what a loop looks up in each of its iterations, kept in a variable or not.
func perIteration(t *Term) bool {
	return t.op == OpLV || t.op == OpCall && len(t.loops) > 0
}

// synthetic terms stand for merged or constructed values, not for something the program compared.
func synthetic(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case OpJoin, OpAppend, OpComp, OpZero, OpObj, OpIter, OpLV:
		return true
	}
	return false
}

// extremum recognises that the two sides of a join hold the larger (smaller) of the same values.
func (e *Eng) extremum(sa, sc *State, a, c *Term, typ types.Type) *Term {
	if a == c {
		return a
	}
	if a.op == OpFresh || c.op == OpFresh || a.typ != nil && !isInteger(a.typ) {
		return nil
	}
	for _, n := range []string{"max", "min"} {
		var set []*Term
		add := func(t *Term) {
			for _, x := range set {
				if x == t {
					return
				}
			}
			set = append(set, t)
		}
		for _, t := range []*Term{a, c} {
			if t.op == OpCall && t.str == n {
				for _, x := range t.args {
					add(x)
				}
			} else {
				add(t)
			}
		}
		if len(set) < 2 || len(set) > 3 {
			continue
		}
		sort.Slice(set, func(i, j int) bool { return set[i].id < set[j].id })
		m := e.in.mk(Term{op: OpCall, str: n, args: set, typ: typ})
		good := func(s *State, t *Term) bool {
			if t == m {
				return true
			}
			if t.op == OpCall && t.str == n {
				return false
			}
			for _, x := range set {
				if x == t {
					continue
				}
				p, q := x, t
				if n == "min" {
					p, q = t, x
				}
				if e.decideTerm(s, e.in.mk(Term{op: OpBin, str: "<=i", args: []*Term{p, q}, typ: types.Typ[types.Bool]})) != yes {
					return false
				}
			}
			return true
		}
		if good(sa, a) && good(sc, c) {
			return m
		}
	}
	return nil
}

// mergeAll joins states pairwise, the most similar ones first.
func (fr *frame) mergeAll(b *ssa.BasicBlock, g []*State) *State {
	id := 0
	if b != nil && fr.fi.loops[b] != nil {
		id = fr.e.loopID(fr, b)
	}
	set := func(s *State, f func(*Fact)) {
		for x := range s.facts.m {
			f(x)
		}
		if h := s.hist[id]; id != 0 && h != nil {
			for x := range h.m {
				f(x)
			}
		}
	}
	weight := func(f *Fact) int {
		if f.kind == "T" || f.kind == "F" {
			return 4
		}
		if f.kind == "IMP" {
			return 0
		}
		return 1
	}
	dist := func(x, y *State) int {
		m := map[*Fact]bool{}
		set(x, func(f *Fact) { m[f] = true })
		d := 0
		n := map[*Fact]bool{}
		set(y, func(f *Fact) {
			if n[f] {
				return
			}
			n[f] = true
			if !m[f] {
				d += weight(f)
			}
		})
		for f := range m {
			if !n[f] {
				d += weight(f)
			}
		}
		return d
	}
	g = append([]*State{}, g...)
	for len(g) > 1 {
		bi, bj := 0, 1
		if len(g) > 2 && len(g) <= 8 {
			best := -1
			for i := range g {
				for j := i + 1; j < len(g); j++ {
					if d := dist(g[i], g[j]); best < 0 || d < best {
						best, bi, bj = d, i, j
					}
				}
			}
		}
		m := fr.merge(b, g[bi], g[bj])
		var n []*State
		for i, s := range g {
			if i == bi {
				n = append(n, m)
			} else if i != bj {
				n = append(n, s)
			}
		}
		g = n
	}
	return g[0]
}

// stepImplied: the state's own step for the variable is the extremum named by f.
func (e *Eng) stepImplied(s *State, f *Fact) bool {
	if f.kind != "STEP" || len(f.quant) > 0 || f.b.op != OpCall || f.b.str != "max" && f.b.str != "min" {
		return false
	}
	for g := range s.facts.m {
		if g.kind == "STEP" && g.a == f.a && len(g.quant) == 0 {
			if e.extremum(s, s, g.b, f.b, f.a.typ) == f.b {
				return true
			}
		}
	}
	return false
}

func (e *Eng) late() bool { return !e.deadline.IsZero() && time.Now().After(e.deadline) }
