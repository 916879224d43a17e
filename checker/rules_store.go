package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The memory storage and the checkpoint table: small state machines, decided root by root.

var rulesPush = []R{
	{"push-index-consistent", "info.Index == Block.Index(block)", "the record carries the index of the block", ""},
	{"push-hash-consistent", "info.Hash == Block.Hash(block)", "the record carries the hash of the block", ""},
	{"push-new-hash", "!has(s.blockInfosHashIndex, either(Block.Hash(block), info.Hash))", "no block with this hash was stored", ""},
	{"push-new-index", "!has(s.blockIndex, either(Block.Index(block), info.Index)) || get(s.blockIndex, either(Block.Index(block), info.Index)) == nil", "no block with this index was stored", ""},
	{"push-block", `ev("put", s.blockIndex, either(Block.Index(block), info.Index), block)`, "the block is filed under its index", ""},
	{"push-info-index", `ev("put", s.blockInfosIndex, either(Block.Index(block), info.Index), info)`, "the record is filed under the index", ""},
	{"push-info-hash", `ev("put", s.blockInfosHashIndex, either(Block.Hash(block), info.Hash), info)`, "the record is filed under the hash", ""},
	{"push-transactions", `ev("put", s.transactionsIndex, either(Block.Index(block), info.Index), details.transactions)`, "the transactions are filed under the index", ""},
	{"push-key-images", `ev("put", s.spentKeysImagesIndex, either(Block.Index(block), info.Index), details.spentKeyImages)`, "the spent key images are filed under the index", ""},
	{"push-top", `ev("set", s.topBlock, block) || s.topBlock != nil && Block.Index(block) <= Block.Index(s.topBlock)`, "the top block is the one with the highest index", ""},
	{"push-multisig", `ev("put", s.spentMultisignatureGlobalIndexesIndex, either(Block.Index(block), info.Index), details.spentMultisignatureGlobalIndexes)`, "the spent multisignature outputs are filed under the index", ""},
}

// byType: patterns name the fields of a struct by role; a field is found by its type when exactly one has it.
func (c *Ctx) byType(pkg, typ string, roles map[string]string) func(string) string {
	var t types.Type
	if sp := c.p.SPkg[pkgPath(pkg)]; sp != nil {
		if m, ok := sp.Members[typ].(*ssa.Type); ok {
			t = m.Type()
		}
	}
	sub := map[string]string{}
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for role, want := range roles {
				var hit []string
				for i := 0; i < s.NumFields(); i++ {
					if typeStr(s.Field(i).Type()) == want {
						hit = append(hit, s.Field(i).Name())
					}
				}
				if len(hit) == 1 {
					sub[role] = hit[0]
				}
			}
		}
	}
	return func(p string) string {
		for _, role := range sortedKeys(sub) {
			p = regexp.MustCompile(`\.`+role+`\b`).ReplaceAllString(p, "."+sub[role])
		}
		return p
	}
}

func mapRules(rs []R, f func(string) string) []R {
	var r []R
	for _, x := range rs {
		x.pat = f(x.pat)
		r = append(r, x)
	}
	return r
}

func fieldsOf(f func(string) string, recv string, names ...string) []string {
	var s []string
	for _, n := range names {
		s = append(s, strings.TrimPrefix(f(recv+"."+n), recv+"."))
	}
	return s
}

func storeCfg() EngCfg { return EngCfg{Opaque: tableOpaque, PathMode: true} }

func (c *Ctx) memoryStorage() {
	f := c.byType("cryptonote", "memoryStorage", map[string]string{
		"blockIndex": "map[uint32]*cryptonote.Block", "blockInfosIndex": "map[uint32]*cryptonote.blockInfo", "blockInfosHashIndex": "map[crypto.Hash]*cryptonote.blockInfo",
		"transactionsIndex": "map[uint32]*[]cryptonote.Transaction", "spentKeysImagesIndex": "map[uint32]*[]crypto.KeyImage",
		"spentMultisignatureGlobalIndexesIndex": "map[uint32]*[]cryptonote.MultisigAmountGlobalOutputIndexPair", "topBlock": "*cryptonote.Block"})
	m := func(name string, params ...string) *Run {
		return c.run("", c.fn("cryptonote", "memoryStorage", name), storeCfg(), append([]string{"s"}, params...))
	}
	fields := fieldsOf(f, "s", "blockIndex", "blockInfosIndex", "blockInfosHashIndex", "transactionsIndex", "spentKeysImagesIndex", "spentMultisignatureGlobalIndexesIndex", "topBlock")
	for _, x := range []string{"HaveBlock", "GetBlock", "HashAtIndex", "getBlockInfoAtIndex", "TopIndex", "TopBlock"} {
		var ps []string
		if x[:3] != "Top" {
			ps = []string{"key"}
		}
		m(x, ps...).reads("lookup-changes-nothing", fields, "a lookup leaves what is stored as it is")
	}
	if r := m("PushBlock", "block", "info", "details"); r != nil {
		c.rulesOn(r, mapRules(rulesPush, f))
		r.unchanged(r.failure(), "push-all-or-nothing", 0, "a refused block changes nothing")
	}
	if r := m("Init", "g"); r != nil {
		for _, x := range []string{"Index: 0", "Hash: Block.Hash(g)", "CumulativeDifficulty: 1", "Size: anyconv(Transaction.Size(g.BaseTransaction))", "TotalGeneratedCoins: g.BaseTransaction.Outputs[0].Amount"} {
			r.must("init-"+strings.ToLower(strings.SplitN(x, ":", 2)[0]), f(`ev("put", s.blockInfosHashIndex, _, blockInfo{`+x+`})`), "the record of the first block has "+x)
		}
		r.must("init-block", f(`ev("put", s.blockIndex, _, g)`), "an initialised storage holds the genesis block")
		r.unchanged(r.failure(), "init-all-or-nothing", 0, "a refused initialisation changes nothing")
	}
	if r := m("HaveBlock", "h"); r != nil {
		r.must("have-yes", f("has(s.blockInfosHashIndex, h)"), "yes only for a stored hash")
		r.mustOn(r.failure(), "have-no", f("!has(s.blockInfosHashIndex, h)"), "no only for a hash that is not stored")
	}
	if r := m("GetBlock", "h"); r != nil {
		r.mustOn(r.outs, "get-by-hash", f("has(s.blockInfosHashIndex, h) && result(0, get(s.blockIndex, get(s.blockInfosHashIndex, h).Index)) || !has(s.blockInfosHashIndex, h) && result(0, nil)"), "the block with this hash, nil if there is none")
	}
	if r := m("HashAtIndex", "i"); r != nil {
		r.must("hash-at-index", f("(has(s.blockIndex, i) || get(s.blockIndex, i) != nil) && result(0, Block.Hash(get(s.blockIndex, i)))"), "the hash of the block stored at the index")
		r.mustOn(r.failure(), "hash-at-missing-index", f("!has(s.blockIndex, i) || get(s.blockIndex, i) == nil"), "an error only for an index without a block")
	}
	if r := m("getBlockInfoAtIndex", "i"); r != nil {
		r.mustOn(r.outs, "info-at-index", f("result(0, get(s.blockInfosIndex, i))"), "the record stored at the index")
	}
	if r := m("TopIndex"); r != nil {
		r.must("top-index", f("result(0, Block.Index(s.topBlock))"), "the index of the top block")
	}
	if r := m("TopBlock"); r != nil {
		r.must("top-block", f("result(0, s.topBlock)"), "the top block")
	}
}

func (c *Ctx) checkpointRules() {
	f := c.byType("config", "checkpoints", map[string]string{"points": "map[uint32]crypto.Hash", "pointsSorted": "[]uint32"})
	m := func(name string, params ...string) *Run {
		return c.run("", c.fn("config", "checkpoints", name), EngCfg{Opaque: func(f *ssa.Function) bool { return !strings.HasPrefix(fname(f), "config.") }, PathMode: true, Track: isSort}, append([]string{"cp"}, params...))
	}
	if r := m("AddCheckpoint", "index", "hash"); r != nil {
		r.must("add-new", f("!has(cp.points, index)"), "a checkpoint is added only where there is none")
		r.must("add-filed", f(`ev("put", cp.points, index, hash)`), "the hash is filed under its index")
		r.must("add-sorted", f(`ev("set", cp.pointsSorted, append(cp.pointsSorted, index))`), "the index joins the index list")
		sorted := len(r.success()) > 0
		for _, o := range r.success() {
			at := r.e.fieldAddr(r.args[0], r.fn.Params[0].Type(), f(".pointsSorted")[1:])
			if at == nil || !r.e.sortedAsc(o.st, r.e.load(o.st, at)) {
				sorted = false
			}
		}
		c.ob("add-ascending", fname(r.fn), r.fn.Pos(), sorted, "the index list is sorted ascending afterwards")
		r.unchanged(r.failure(), "add-refused", 0, "a refused checkpoint changes nothing")
	}
	fields := fieldsOf(f, "cp", "points", "pointsSorted")
	m("IsInCheckpointZone", "index").reads("query-changes-nothing", fields, "a question leaves the checkpoints as they are")
	m("CheckBlock", "index", "hash").reads("query-changes-nothing", fields, "a question leaves the checkpoints as they are")
	const last = "cp.pointsSorted[len(cp.pointsSorted)-1]"
	if r := m("IsInCheckpointZone", "index"); r != nil {
		r.must("zone-yes", f("len(cp.pointsSorted) != 0 && index <= "+last), "inside only up to the last checkpoint")
		r.mustOn(r.failure(), "zone-no", f("len(cp.pointsSorted) == 0 || "+last+" == 0 || index > "+last), "outside only above the last checkpoint")
	}
	if r := m("CheckBlock", "index", "hash"); r != nil {
		r.must("check-pass", f("!has(cp.points, index) || get(cp.points, index) == hash"), "a hash passes only if it is the checkpoint's, where there is one")
		r.mustOn(r.failure(), "check-refuse", f("has(cp.points, index) && get(cp.points, index) != hash"), "a hash is refused only if it differs from the checkpoint's")
	}
	c.alternativeRule()
}

// alternativeRule: for 0 to 3 checkpoints p0 < p1 < p2 the answer is decided for every index and size.
func (c *Ctx) alternativeRule() {
	fn := c.fn("config", "checkpoints", "AlternativeBlockAllowed")
	if fn == nil {
		return
	}
	bad := false
	for n := 0; n <= 3 && !bad; n++ {
		e := NewEng(c.p, EngCfg{Opaque: func(f *ssa.Function) bool { return !strings.HasPrefix(fname(f), "config.") }, PathMode: true, Interval: true})
		args := e.rootArgs(fn)
		st := newState()
		ty := types.NewSlice(types.Typ[types.Uint32])
		at := e.fieldAddr(args[0], fn.Params[0].Type(), c.byType("config", "checkpoints", map[string]string{"pointsSorted": "[]uint32"})(".pointsSorted")[1:])
		if at == nil {
			c.ob("alternative-allowed", fname(fn), fn.Pos(), false, "the checkpoint table has no index list")
			return
		}
		pts := e.in.mk(Term{op: OpMake, str: "arg", args: []*Term{e.in.Int(int64(n))}, typ: ty, uid: "arg"})
		st.store[at] = pts
		env := map[string]*Term{"size": args[1], "index": args[2]}
		var below, zone string
		below = "true"
		_ = below
		for i := 0; i < n; i++ {
			env[fmt.Sprintf("p%d", i)] = e.in.Elem(pts, e.in.Int(int64(i)), types.Typ[types.Uint32])
			lo := "1"
			if i > 0 {
				lo = fmt.Sprintf("p%d + 1", i-1)
			}
			e.assumeS(st, fmt.Sprintf("p%d >= %s && p%d <= 4294967000", i, lo, i), env)
			zone = fmt.Sprintf(" || index <= p%d", i)
		}
		outs := e.Run(fn, args, st)
		c.blocks += e.paths
		for f := range e.fns {
			c.fns[f] = true
		}
		if n == 2 {
			f := c.byType("config", "checkpoints", map[string]string{"points": "map[uint32]crypto.Hash", "pointsSorted": "[]uint32"})
			(&Run{c: c, fn: fn, e: e, args: args, outs: outs}).reads("query-changes-nothing", fieldsOf(f, "cp", "points", "pointsSorted"), "a question leaves the checkpoints as they are")
		}
		fail := func(o Out, d string) {
			if !bad {
				bad = true
				c.ob("alternative-allowed", fname(fn), o.pos, false, fmt.Sprintf("with %d checkpoints: %s", n, d))
			}
		}
		if len(outs) == 0 || len(e.problems) > 0 {
			fail(Out{pos: fn.Pos()}, "not analysable "+strings.Join(e.problems, "; "))
		}
		for _, o := range outs {
			deep := "index <= size - 11 && size >= 11"
			inzone := "false"
			if zone != "" {
				inzone = zone[4:]
			}
			switch e.nilness(o.st, o.res[0]) {
			case yes:
				if !e.holdsS(o.st, "index >= 1", env) {
					fail(o, "allowed at the genesis block")
				}
				if !e.holdsS(o.st, "size <= 10 || index >= size - 10"+zone, env) {
					fail(o, "allowed deeper than the unlock window outside the checkpoints")
				}
				for i := 0; i < n; i++ {
					if !e.holdsS(o.st, fmt.Sprintf("p%d >= size + 1 || p%d <= index - 1", i, i), env) {
						fail(o, "allowed at or below a checkpoint the chain has reached")
					}
				}
			case no:
				cond := "index <= 0"
				if n == 0 {
					cond += " || (" + deep + ")"
				} else {
					cond += fmt.Sprintf(" || (%s && index >= p%d + 1)", deep, n-1)
				}
				for i := 0; i < n; i++ {
					cond += fmt.Sprintf(" || (p%d <= size && index <= p%d)", i, i)
				}
				if !e.holdsS(o.st, cond, env) {
					fail(o, "refused although it is neither too deep nor below a checkpoint")
				}
			default:
				fail(o, "undecided answer")
			}
			_ = inzone
		}
	}
	if !bad {
		c.ob("alternative-allowed", fname(fn), fn.Pos(), true, "for up to 3 checkpoints: allowed exactly outside genesis, within the unlock window or the zone, above every checkpoint reached")
	}
}

func init() {
	A := []string{"Go type and SSA construction of golang.org/x/tools"}
	register("M01", "", "Must-facts and effects of every exported operation of the memory storage.", A, func(c *Ctx) { c.memoryStorage() })
	register("N03", "", "Must-facts and effects of the checkpoint table.", A, func(c *Ctx) { c.checkpointRules() })
	register("C07", "", "Effects of every failing path of BlockChain.AddBlock.", A, func(c *Ctx) {
		r := runBase(c)
		if r == nil {
			return
		}
		r.unchanged(r.failure(), "failure-changes-nothing", 0, "a refused block leaves the chain as it was")
		c.notStored(r.fn)
		r.unchanged(r.failure(), "failure-keeps-block", 1, "a refused block can be offered again as it was")
		r.unchanged(r.failure(), "failure-keeps-transactions", 2, "the transactions of a refused block can be offered again as they were")
	})
}

// notStored: no refusal comes after the storage took the block. Every way on from a store that
// succeeded is followed; the error of each return on it is nil or the (nil) error of the store itself.
func (c *Ctx) notStored(root *ssa.Function) {
	con := fname(root)
	seen, result := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	n, bad := 0, false
	var visit func(f *ssa.Function) bool // whether a success of f is a success of the store
	visit = func(f *ssa.Function) bool {
		if f == nil || f.Blocks == nil || f.Pkg == nil || !inModule(f.Pkg.Pkg.Path()) {
			return false
		}
		if seen[f] {
			return result[f]
		}
		seen[f] = true
		stores := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				com := call.Common()
				hit := com.IsInvoke() && com.Method.Name() == "PushBlock"
				if g := com.StaticCallee(); !hit && g != nil {
					hit = visit(g)
				}
				if !hit {
					continue
				}
				stores = true
				n++
				if at := afterStore(f, call); at != nil && !bad {
					bad = true
					c.ob("refused-is-not-stored", con, at.Pos(), false, "refused although the block was stored at "+c.p.At(call.Pos()))
				}
			}
		}
		result[f] = stores
		return stores
	}
	visit(root)
	if !bad {
		c.ob("refused-is-not-stored", con, root.Pos(), n > 0, "a block is refused only before it is stored, or because the storage refuses it")
	}
}

// afterStore: a return with an error that may not be nil, on a way on from the successful call.
func afterStore(f *ssa.Function, call *ssa.Call) ssa.Instruction {
	type env map[ssa.Value]bool // variables known to hold nil or the error of the call
	var isErr func(v ssa.Value, m env) bool
	isErr = func(v ssa.Value, m env) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Extract:
			return x.Tuple == ssa.Value(call) && isErrorType(x.Type())
		case *ssa.UnOp:
			return m[x]
		}
		return v == ssa.Value(call) || m[v]
	}
	steps := 0
	memo := map[string]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock, from int, m env)
	walk = func(b *ssa.BasicBlock, from int, m env) {
		if bad != nil || steps > 4000 {
			return
		}
		steps++
		for i := from; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				m[x.Addr] = isErr(x.Val, m)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					m[x] = m[x.X]
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if isErrorType(v.Type()) && !isErr(v, m) {
						bad = x
						return
					}
				}
			case *ssa.If:
				if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isErr(bo.X, m) && isErr(bo.Y, m) && isErrorType(bo.X.Type()) {
					k := 0
					if bo.Op == token.NEQ {
						k = 1
					}
					walkEdge(b, b.Succs[k], m, walk, isErr, memo)
					return
				}
			}
		}
		for _, s := range b.Succs {
			walkEdge(b, s, m, walk, isErr, memo)
		}
	}
	b := call.Block()
	for i, in := range b.Instrs {
		if in == ssa.Instruction(call) {
			walk(b, i+1, env{})
		}
	}
	return bad
}

func walkEdge[M ~map[ssa.Value]bool](b, s *ssa.BasicBlock, m M, walk func(*ssa.BasicBlock, int, M), isErr func(ssa.Value, M) bool, memo map[string]bool) {
	n := M{}
	for k, v := range m {
		n[k] = v
	}
	i := 0
	for j, p := range s.Preds {
		if p != b {
			continue
		}
		for ; i < len(s.Instrs); i++ {
			phi, ok := s.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			n[phi] = isErr(phi.Edges[j], m)
		}
		break
	}
	var ks []string
	for k, v := range n {
		if v {
			ks = append(ks, k.Name())
		}
	}
	sort.Strings(ks)
	key := fmt.Sprint(s.Index, ks)
	if memo[key] {
		return
	}
	memo[key] = true
	walk(s, i, n)
}

const fusionIn = "all(j, tx.Inputs, imp(is(tx.Inputs[j], InputKey), ev(\"setelem\", v_a, j, as(tx.Inputs[j], InputKey).Amount))) && all(j, tx.Inputs, imp(is(tx.Inputs[j], InputMultiSignature), ev(\"setelem\", v_a, j, as(tx.Inputs[j], InputMultiSignature).Amount)))"
const fusionOut = "all(j, tx.Outputs, ev(\"setelem\", v_b, j, tx.Outputs[j].Amount))"

var rulesT06 = []R{
	{"fusion-size", "Transaction.Size(tx) <= FusionMaxTxSize(_, validator.blockIndex)", "a fusion transaction is within the fusion size limit of its height", ""},
	{"fusion-input-count", "anyconv(FusionTxMinInputCount(_)) <= len(tx.Inputs)", "it has at least the minimal number of inputs", ""},
	{"fusion-ratio", "len(tx.Outputs) * anyconv(FusionTxMinInOutCountRatio(_)) <= len(tx.Inputs)", "it has at least the minimal number of inputs per output", ""},
}

func fusionRulesFor(dust string) []R {
	ex := "concat(r0(DecomposeAmountIntoDigits(v_sum, " + dust + ")), r1(DecomposeAmountIntoDigits(v_sum, " + dust + ")))"
	return []R{
		{"fusion-output-count", "len(" + ex + ") == len(tx.Outputs) && init(v_sum, 0) && all(i, _, step(v_sum, v_sum + v_a[i])) && " + fusionIn, "it has as many outputs as the canonical decomposition of the sum of its inputs has parts", ""},
		{"fusion-outputs", fusionOut + " && all(i, _, v_b[i] == v_e[i]) && len(v_e) == len(tx.Outputs) || all(i, _, tx.Outputs[i].Amount == v_e[i]) && len(v_e) == len(tx.Outputs)", "its outputs are the parts of that decomposition, one by one", ""},
	}
}

// decomposeRule: without a dust threshold an amount of k digits decomposes into its non-zero digits,
// each with its power of ten, from the lowest to the highest. The digits are symbolic.
func (c *Ctx) decomposeRule() {
	fn := c.fn("cryptonote", "", "DecomposeAmountIntoDigits")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	for k := 0; k <= 7; k++ {
		e := NewEng(c.p, EngCfg{PathMode: true, Interval: true})
		st := newState()
		amt := e.in.mk(Term{op: OpParam, str: "amount", typ: types.Typ[types.Uint64]})
		env := map[string]*Term{"amount": amt}
		args := []*Term{amt, e.in.Int(0)}
		if k == 0 {
			args[0] = e.in.Int(0)
		} else {
			e.assumeS(st, fmt.Sprintf("amount >= 1%s && amount <= %s", strings.Repeat("0", k-1), strings.Repeat("9", k)), env)
		}
		outs := e.Run(fn, args, st)
		c.blocks += e.paths
		c.fns[fname(fn)] = true
		ok, why := len(outs) > 0, "no outcome"
		if len(e.problems) > 0 {
			ok, why = false, e.problems[0]
		}
		seen := map[string]bool{}
		for _, o := range outs {
			got, flat := flattenAppend(e, o.res[0])
			dust, flat2 := flattenAppend(e, o.res[1])
			if !flat || !flat2 || len(dust) != 0 {
				ok, why = false, fmt.Sprintf("result is %s, %s", o.res[0], o.res[1])
				break
			}
			i := 0
			shape := ""
			for d := 0; d < k; d++ {
				x := "amount"
				pow := "1"
				for j := 0; j < d; j++ {
					x = "(" + x + ") / 10"
					pow += "0"
				}
				x = "((" + x + ") % 10) * " + pow
				if d == 0 {
					x = "(amount) % 10"
				}
				if i < len(got) && e.canon(got[i]) == e.canon(e.exprS(x, env)) {
					i++
					shape += "1"
				} else {
					shape += "0"
					if !e.holdsS(o.st, x+" <= 0", env) {
						ok, why = false, fmt.Sprintf("digit %d is missing although it may be non-zero: %s; %s", d, o.res[0], x)
						if os.Getenv("KC_DUMP") == "decomposition" {
							for _, f := range o.st.facts.list() {
								fmt.Println("  #", f)
							}
						}
					}
				}
			}
			if i != len(got) {
				ok, why = false, fmt.Sprintf("unexpected part %s", got[i])
			}
			seen[shape] = true
		}
		c.counts["digit patterns"] += len(seen)
		c.ob("decomposition", fname(fn), fn.Pos(), ok, fmt.Sprintf("amounts of %d digits: %s", k, why))
		if !ok {
			return
		}
	}
}

// flattenAppend lists the elements appended one by one to nothing.
func flattenAppend(e *Eng, t *Term) ([]*Term, bool) {
	if t.isNil() || t.op == OpZero {
		return nil, true
	}
	if t.op == OpMake && len(t.args) == 1 && isZeroInt(t.args[0]) {
		return nil, true
	}
	if t.op != OpAppend || len(t.args) != 2 {
		return nil, false
	}
	l, ok := flattenAppend(e, t.args[0])
	if !ok {
		return nil, false
	}
	n, isC := e.in.Len(t.args[1]).intConst()
	if !isC || !n.IsInt64() || n.Int64() > 64 {
		return nil, false
	}
	for i := int64(0); i < n.Int64(); i++ {
		l = append(l, e.in.Elem(t.args[1], e.in.Int(i), nil))
	}
	return l, true
}

func (c *Ctx) fusionRules() {
	cfg := chainCfg()
	cfg.Track = func(s string) bool { return isSort(s) }
	cfg.TrackSet = true
	fn := c.fn("cryptonote", "blockTransactionsValidator", "IsFusionTransaction")
	if fn == nil {
		return
	}
	names := []string{"validator", "tx"}
	old := c.run("index < 266000", fn, cfg, names, seedField(0, "blockIndex", token.LEQ, 265999))
	now := c.run("index >= 266000", fn, cfg, names, seedField(0, "blockIndex", token.GEQ, 266000))
	for _, r := range []*Run{old, now} {
		c.rulesOn(r, rulesT06)
	}
	c.rulesOn(old, fusionRulesFor("DefaultDustThreshold(_)"))
	old.must("fusion-dust", fusionIn+" && all(i, _, DefaultDustThreshold(_) <= v_a[i])", "below index 266000 no input is below the dust threshold")
	c.rulesOn(now, fusionRulesFor("0"))
	for _, r := range []*Run{old, now} {
		ok := len(r.success()) > 0
		for _, o := range r.success() {
			b, has := r.pm.HoldsB(o.st, "len(v_e) == len(tx.Outputs) && all(i, _, v_e[i] == _)", nil)
			if !has || !r.e.sortedAsc(o.st, b["v_e"]) {
				ok = false
			}
		}
		c.ob("fusion-ascending", fname(fn)+" ["+r.label+"]", fn.Pos(), ok, "the parts are compared in ascending order")
	}
	c.tables(tFusion()...)
	c.decomposeRule()
}

func init() {
	A := []string{"Go type and SSA construction of golang.org/x/tools"}
	register("T06", "", "", A, func(c *Ctx) { c.fusionRules() })
}
