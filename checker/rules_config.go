package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The numbers of the consensus rules, as tables over the whole range of their arguments.

func netTable(rule, name string, params []string, mean string, rows ...Row) Table {
	return Table{rule: rule, pkg: "config", typ: "Network", name: name, params: params, rows: rows, mean: mean}
}

func (c *Ctx) tables(ts ...Table) {
	for _, t := range ts {
		c.table(t)
	}
}

var H = []string{"h"}
var V = []string{"v"}

func tSchedule() Table {
	return netTable("schedule", "GetBlockMajorVersion", H, "the block version in force at an index",
		Row{"h <= 60000", "1"}, Row{"h >= 60001 && h <= 216000", "2"}, Row{"h >= 216001 && h <= 266000", "3"}, Row{"h >= 266001 && h <= 700000", "4"}, Row{"h >= 700001", "5"})
}
func tFuture() Table {
	return netTable("future-limit", "BlockFutureTimeLimit", V, "how far a timestamp may lie in the future", Row{"v <= 3", "1680"}, Row{"v >= 4", "720"})
}
func tTsWindow() Table {
	return netTable("timestamp-window", "BlockTimestampCheckWindow", V, "number of timestamps the median is taken of", Row{"v <= 3", "60"}, Row{"v >= 4", "11"})
}
func tUnlock() Table {
	return netTable("unlock-window", "MinedMoneyUnlockWindow", nil, "blocks until a reward may be spent", Row{"true", "10"})
}
func tMaxTx() Table {
	return netTable("transaction-size-limit", "MaxTransactionSize", H, "largest transaction at a height", Row{"h <= 266000", "18446744073709551615"}, Row{"h >= 266001", "249400"})
}
func tMaxBlock() Table {
	return netTable("block-size-limit", "MaxBlockSize", H, "largest block at a height", Row{"h <= 4294967295", "1000000 + h * 102400 / 131400"})
}
func tMinFee() Table {
	return netTable("minimal-fee-table", "MinimalFee", H, "minimal fee at a height", Row{"h <= 216394", "100000000"}, Row{"h >= 216395 && h <= 266000", "100000000000"}, Row{"h >= 266001", "10000000000"})
}
func tMinFeeV() Table {
	return netTable("validated-fee-table", "MinimalFeeValidator", H, "minimal fee a transaction is validated against",
		Row{"h <= 216394", "100000000"}, Row{"h >= 216395 && h <= 266000", "100000000000"}, Row{"h >= 266001 && h <= 666999", "8000000000"}, Row{"h >= 667000", "10000000000"})
}
func tFeeByte() Table {
	return netTable("extra-fee-table", "GetFeePerByte", []string{"size", "fee"}, "fee for an extra field", Row{"size <= 100", "0"}, Row{"size >= 101 && size <= 1099511627776", "fee / (100 * (size - 100))"})
}
func tMixin() []Table {
	return []Table{netTable("mixin-table", "MinMixin", nil, "", Row{"true", "2"}), netTable("mixin-table", "MaxMixin", nil, "", Row{"true", "20"})}
}
func tFusion() []Table {
	return []Table{
		netTable("fusion-table", "FusionMaxTxSize", H, "largest fusion transaction", Row{"h <= 216000", "300000"}, Row{"h >= 216001", "30000"}),
		netTable("fusion-table", "FusionTxMinInputCount", nil, "", Row{"true", "12"}),
		netTable("fusion-table", "FusionTxMinInOutCountRatio", nil, "", Row{"true", "4"}),
		netTable("fusion-table", "DefaultDustThreshold", nil, "", Row{"true", "100000000"}),
	}
}
func tRewardWindow() Table {
	return netTable("reward-window", "RewardBlockWindow", nil, "blocks the size median is taken of", Row{"true", "100"})
}
func tDiffWindow() Table {
	return netTable("difficulty-window-table", "DifficultyBlocksCountByBlockVersion", V, "blocks the difficulty is computed from",
		Row{"v <= 1", "375"}, Row{"v == 2", "17"}, Row{"v == 3", "61"}, Row{"v == 4", "61"}, Row{"v >= 5", "121"})
}
func tDenominations() Table {
	t := netTable("denominations", "IsValidDecomposedAmount", []string{"a"}, "exactly the amounts d*10^k are canonical")
	t.globals = true
	var vals []string
	for k := 0; k < 19; k++ {
		for d := 1; d <= 9; d++ {
			vals = append(vals, fmt.Sprint(d)+strings.Repeat("0", k))
		}
	}
	vals = append(vals, "1"+strings.Repeat("0", 19))
	prev := ""
	for _, v := range vals {
		if prev == "" {
			t.rows = append(t.rows, Row{"a == 0", "false"})
		} else if len(v) > 1 && !(prev == "9" && v == "10") {
			t.rows = append(t.rows, Row{"a >= " + prev + " + 1 && a <= " + v + " - 1", "false"})
		}
		t.rows = append(t.rows, Row{"a == " + v, "true"})
		prev = v
	}
	t.rows = append(t.rows, Row{"a >= " + prev + " + 1", "false"})
	return t
}

// reward formula: emission of the coins generated so far, penalty above the median.
func tReward() Table {
	t := netTable("reward-formula", "GetBlockReward", []string{"v", "median", "size", "coins", "fee"}, "the reward and the emission of a block")
	t.opaque = "utils.Mul128 utils.Div128p32"
	pen := func(a, M string) string {
		x := "(" + M + " * 2 - size) * size"
		m := "utils.Mul128(" + a + ", " + x + ")"
		d := func(hi, lo string) string { return "utils.Div128p32(" + hi + ", " + lo + ", uint32(" + M + "))" }
		d1 := d("r1("+m+")", "r0("+m+")")
		return "r0(" + d("r1("+d1+")", "r0("+d1+")") + ")"
	}
	zones := []struct{ when, zone string }{{"v <= 1", "100000"}, {"v >= 2", "1000000"}}
	coins := []struct{ when, base string }{
		{"coins <= 9737856000000000000", "(10000000000000000000 - coins) / 262144"},
		{"coins >= 9737856000262144 * 1000 && coins <= 17000000000000000000", "coins / 100 * 2 / 131400"},
	}
	for _, z := range zones {
		for _, k := range coins {
			for _, m := range []struct{ when, M string }{{"median <= " + z.zone, z.zone}, {"median >= " + z.zone + " + 1 && median <= 1000000000", "median"}} {
				w := z.when + " && " + k.when + " && " + m.when
				t.rows = append(t.rows,
					Row{w + " && fee >= 1 && fee <= 1000000000000000000 && size <= " + m.M, k.base + " + fee; " + k.base + "; nil"},
					Row{w + " && fee == 0 && size <= " + m.M, k.base + "; " + k.base + "; nil"},
					Row{w + " && size >= " + m.M + " * 2 + 1", "_; _; err"},
					Row{w + " && fee >= 1 && size >= " + m.M + " + 1 && size <= " + m.M + " * 2", pen(k.base, m.M) + " + " + pen("fee", m.M) + "; " + pen(k.base, m.M) + " - (fee - " + pen("fee", m.M) + "); nil"},
					Row{w + " && fee == 0 && size >= " + m.M + " + 1 && size <= " + m.M + " * 2", pen(k.base, m.M) + "; " + pen(k.base, m.M) + "; nil"})
			}
		}
	}
	return t
}

// difficulty: what the answer is bound to whatever the window holds.
func tDifficulty() []Table {
	P := []string{"h", "v", "ts", "cd"}
	t := func(rule, mean string, rows ...Row) Table {
		x := netTable(rule, "NextDifficulty", P, mean, rows...)
		x.joined = true
		return x
	}
	floor := t("difficulty-floor", "a measured window never gives less than the minimal difficulty on the main net",
		Row{"v == 3 && len(ts) >= 4 && len(ts) == len(cd)", ">= 100000"},
		Row{"v == 4 && len(ts) == len(cd)", ">= 100000"},
		Row{"h <= 699999 && v >= 5 && len(ts) == len(cd)", ">= 100000"},
		Row{"h >= 700001 && h <= 700119 && v >= 5 && len(ts) == len(cd)", ">= 100000"},
		Row{"h >= 700120 && v >= 5 && len(ts) == len(cd)", ">= 100000"})
	floor.only = "MainNet"
	floor2 := t("difficulty-floor", floor.mean, Row{"v == 2 && len(ts) >= 2 && len(ts) == len(cd)", ">= 100000 or 0"})
	floor2.only, floor2.joined = "MainNet", false
	var lists []Row
	for _, w := range []string{"v <= 1", "v == 2", "v == 4", "h <= 699999 && v >= 5", "h >= 700120 && v >= 5"} {
		lists = append(lists, Row{w + " && len(ts) >= len(cd) + 1", "_; err"}, Row{w + " && len(cd) >= len(ts) + 1", "_; err"})
	}
	return []Table{
		t("difficulty-lists", "as many timestamps as difficulties are needed", lists...),
		t("difficulty-window", "a longer window than the algorithm of version 4 knows is refused", Row{"v == 4 && len(ts) >= 62", "_; err"}),
		t("difficulty-start", "the first blocks of the chain have difficulty 1",
			Row{"v <= 1 && len(ts) == len(cd) && len(ts) <= 1", "1; nil"}, Row{"v == 2 && len(ts) == len(cd) && len(ts) <= 1", "1; nil"}, Row{"v == 3 && len(ts) == len(cd) && len(ts) <= 3", "1; nil"}),
		t("difficulty-reset", "the epoch of version 5 starts from the work of the chain so far", Row{"h == 700000 && v >= 5 && len(ts) == len(cd)", "cd[0] / (700000 * 1000); nil"}),
		floor, floor2,
	}
}

// sliceArg: a slice of known length with unknown elements.
func sliceArg(n int) func(e *Eng, t types.Type) *Term {
	return func(e *Eng, t types.Type) *Term {
		return e.in.mk(Term{op: OpMake, str: "arg", args: []*Term{e.in.Int(int64(n))}, typ: t, uid: "arg"})
	}
}

// median: for every length a window can have, the answer is the middle of the ascending elements.
func (c *Ctx) medianRule() {
	fn := c.fn("utils", "", "MedianSlice")
	if fn == nil {
		return
	}
	for n := 0; n <= 121; n++ {
		e := NewEng(c.p, EngCfg{PathMode: true, Interval: true, Track: func(s string) bool { return isSort(s) }})
		arg := sliceArg(n)(e, fn.Params[0].Type())
		outs := e.Run(fn, []*Term{arg}, newState())
		c.blocks += e.paths
		ok, why := len(outs) > 0, "no outcome"
		for _, o := range outs {
			t := o.res[0]
			var base *Term
			elem := func(x *Term, i int) bool {
				if x.op != OpElem {
					return false
				}
				k, isC := x.args[1].intConst()
				if !isC || k.Cmp(bigInt(i)) != 0 || !sameContents(x.args[0], arg) {
					return false
				}
				base = x.args[0]
				return n == 1 || x.ver != 0 && e.sortedAsc(o.st, base)
			}
			good := false
			switch {
			case n == 0:
				k, isC := t.intConst()
				good = isC && k.Sign() == 0
			case n%2 == 1:
				good = elem(t, n/2)
			default:
				if t.op == OpBin && (t.str == "/" || t.str == ">>") && t.args[0].op == OpSum && len(t.args[0].args) == 2 && bigOf(t.args[0].val).Sign() == 0 {
					k, isC := t.args[1].intConst()
					s := t.args[0].args
					good = isC && (t.str == "/" && k.Cmp(bigInt(2)) == 0 || t.str == ">>" && k.Cmp(bigInt(1)) == 0) &&
						(elem(s[0], n/2-1) && elem(s[1], n/2) || elem(s[1], n/2-1) && elem(s[0], n/2))
				}
			}
			if !good {
				ok, why = false, fmt.Sprintf("for %d elements the answer is %s", n, t)
			}
		}
		for _, p := range e.problems {
			ok, why = false, p
		}
		c.ob("median", fname(fn), fn.Pos(), ok, "the median is the middle of the ascending elements: "+why)
		if !ok {
			return
		}
	}
	c.fns[fname(fn)] = true
}

func sameContents(x, arg *Term) bool {
	if x == arg {
		return true
	}
	// a copy made by append(nil, arg...)
	return x.op == OpAppend && len(x.args) == 2 && x.args[1] == arg && (x.args[0].isNil() || x.args[0].op == OpMake && len(x.args[0].args) == 1 && isZeroInt(x.args[0].args[0])) ||
		x.op == OpCall && (x.str == "copyof" || x.str == "slices.Clone") && x.args[0] == arg
}

func isZeroInt(t *Term) bool { k, ok := t.intConst(); return ok && k.Sign() == 0 }

func isSort(s string) bool {
	switch s {
	case "sort.Slice", "sort.SliceStable", "slices.Sort", "sort.Sort":
		return true
	}
	return strings.HasPrefix(s, "slices.Sort[")
}

// sortedAsc: the slice was sorted ascending on every path to here.
func (e *Eng) sortedAsc(st *State, base *Term) bool {
	for f := range st.facts.m {
		if f.kind != "EV" || !isSort(f.name) || len(f.args) == 0 {
			continue
		}
		x := f.args[0]
		if x.op == OpIface {
			x = x.args[0]
		}
		if x != base {
			continue
		}
		if strings.HasPrefix(f.name, "slices.Sort") {
			return true
		}
		if len(f.args) < 2 {
			return false
		}
		less := f.args[1]
		if less.fn == nil {
			return false
		}
		i := e.in.mk(Term{op: OpParam, str: "less.i", typ: types.Typ[types.Int]})
		j := e.in.mk(Term{op: OpParam, str: "less.j", typ: types.Typ[types.Int]})
		var bs []*Term
		if less.op == OpClosure {
			bs = less.args
		}
		s2 := st.clone()
		outs := e.call(less.fn, []*Term{i, j}, bs, s2, "less", nil, false, 5)
		for _, o := range outs {
			// true only where element i is below (or equal to) element j, false only where it is not below
			ei, ej := e.in.Elem(base, i, nil), e.in.Elem(base, j, nil)
			ei = e.in.mk(Term{op: OpElem, args: ei.args, ver: st.ver[elemKey(base)], typ: types.Typ[types.Uint64]})
			ej = e.in.mk(Term{op: OpElem, args: ej.args, ver: st.ver[elemKey(base)], typ: types.Typ[types.Uint64]})
			le := func(op token.Token, a, b *Term) bool {
				return e.decide(o.st, e.in.cmpFact(op, a, b, true, true)) == yes
			}
			switch e.decideTerm(o.st, o.res[0]) {
			case yes:
				if !le(token.LEQ, ei, ej) {
					return false
				}
			case no:
				if !le(token.LEQ, ej, ei) {
					return false
				}
			default:
				return false
			}
		}
		return len(outs) > 0
	}
	return false
}

// reverseRule: element k of the answer is element n-1-k of the argument.
func (c *Ctx) reverseRule() {
	fn := c.fn("utils", "", "SliceReverse")
	if fn == nil {
		return
	}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 17, 60, 61, 100, 121} {
		e := NewEng(c.p, EngCfg{PathMode: true, Interval: true})
		arg := sliceArg(n)(e, fn.Params[0].Type())
		st := newState()
		outs := e.Run(fn, []*Term{arg}, st)
		c.blocks += e.paths
		ok, why := len(outs) > 0, "no outcome"
		for _, o := range outs {
			l := e.in.Len(o.res[0])
			if k, isC := l.intConst(); !isC || k.Cmp(bigInt(n)) != 0 {
				ok, why = false, "the answer has another length"
			}
			for k := 0; k < n && ok; k++ {
				got := e.load(o.st, e.in.mk(Term{op: OpIAddr, args: []*Term{o.res[0], e.in.Int(int64(k))}, typ: types.Typ[types.Uint64]}))
				if want := e.in.Elem(arg, e.in.Int(int64(n-1-k)), nil); got != want {
					ok, why = false, fmt.Sprintf("for %d elements, element %d of the answer is %s", n, k, got)
				}
			}
		}
		for _, p := range e.problems {
			ok, why = false, p
		}
		c.ob("reversal", fname(fn), fn.Pos(), ok, "the answer is the argument backwards: "+why)
		if !ok {
			return
		}
	}
	c.fns[fname(fn)] = true
}

func (c *Ctx) uniqueRule() {
	fn := c.fn("utils", "", "SliceIsUniqueUint32")
	r := c.run("", fn, EngCfg{}, []string{"s"})
	if r == nil {
		return
	}
	r.must("uniqueness", `all(i, s, ev("putfresh", v_m, s[i], etc) && outside(v_m, i))`, "the answer is yes only if every element was new when it was seen")
}

var _ *ssa.Function

func init() {
	A := []string{"Go type and SSA construction of golang.org/x/tools", "the 128 bit helpers utils.Mul128 and utils.Div128p32 are correct"}
	register("N02", "", "Partition tables: every schedule and limit function of the network parameters is evaluated abstractly per region of its arguments, with the receiver taken from the analysed constructor; the regions cover the whole range.", A, func(c *Ctx) {
		c.tables(tSchedule(), tFuture(), tTsWindow(), tUnlock(), tMaxTx(), tMaxBlock(), tMinFee(), tMinFeeV(), tFeeByte(), tRewardWindow(), tDiffWindow())
		c.tables(tMixin()...)
		c.tables(tFusion()...)
		c.table(tDenominations())
	})
	register("N05", "", "Partition tables over height, version and the lengths of the two lists: in every region each outcome is the prescribed value, an error, or bounded below by the interval domain.", A, func(c *Ctx) { c.tables(tDifficulty()...) })
	register("N04", "", "Partition table of the reward: emission and penalty as polynomials over the 128 bit helpers, per region of version, coins, median and size.", A, func(c *Ctx) {
		c.table(tReward())
		c.medianRule()
	})
}
