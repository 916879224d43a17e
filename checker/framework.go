package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A check decides one property as a set of obligations. Each obligation is a rule applied to a
// construct (an entry point, a call site, a function); it is discharged or reported.
type Oblig struct {
	Rule, Construct, Pos, Detail string
	OK                           bool
}

type Ctx struct {
	p      *Prog
	id     string
	tier   string
	obs    []Oblig
	fns    map[string]bool
	blocks int
	counts map[string]int
	notes  []string
	runs   map[string]*Run
}

func (c *Ctx) ob(rule, construct string, pos token.Pos, ok bool, detail string) {
	c.obs = append(c.obs, Oblig{Rule: rule, Construct: construct, Pos: c.p.At(pos), OK: ok, Detail: detail})
}

// need fails the check when a rule finds fewer instances than were confirmed by reading the code.
func (c *Ctx) need(what string, got, min int) {
	c.counts[what] = got
	if got < min {
		c.obs = append(c.obs, Oblig{Rule: "instances", Construct: what, Pos: "?", Detail: fmt.Sprintf("%d instance(s) found, at least %d expected: the rule would pass vacuously", got, min)})
	}
}

func (c *Ctx) fn(pkg, typ, name string) *ssa.Function {
	var f *ssa.Function
	if typ == "" {
		f = c.p.Func(pkg, name)
	} else {
		f = c.p.Method(pkg, typ, name)
	}
	if f == nil || f.Blocks == nil {
		n := pkg + "." + name
		if typ != "" {
			n = pkg + "." + typ + "." + name
		}
		c.obs = append(c.obs, Oblig{Rule: "anchor", Construct: n, Pos: "?", Detail: "the function this rule is anchored at does not exist or has no body"})
		return nil
	}
	return f
}

// ---- runs -------------------------------------------------------------------------------------

type Run struct {
	c     *Ctx
	e     *Eng
	fn    *ssa.Function
	args  []*Term
	outs  []Out
	pm    *PM
	label string
}

type Seed func(e *Eng, args []*Term, st *State)

// run interprets fn abstractly; names are the pattern names of its parameters, receiver first.
func (c *Ctx) run(label string, fn *ssa.Function, cfg EngCfg, names []string, seeds ...Seed) *Run {
	if fn == nil {
		return nil
	}
	e := NewEng(c.p, cfg)
	args := e.rootArgs(fn)
	st := newState()
	params := map[string]*Term{}
	for i, a := range args {
		if i < len(names) {
			params[names[i]] = a
		}
	}
	for _, s := range seeds {
		s(e, args, st)
	}
	r := &Run{c: c, e: e, fn: fn, args: args, label: label}
	r.outs = e.Run(fn, args, st)
	r.pm = e.pm(params)
	for f := range e.fns {
		c.fns[f] = true
	}
	c.blocks += e.paths
	for _, p := range e.problems {
		c.ob("analysable", fname(fn), fn.Pos(), false, "the analysis could not follow the code: "+p)
	}
	return r
}

// success: outcomes whose last result is a nil error (or true).
func (r *Run) success() []Out {
	var s []Out
	for _, o := range r.outs {
		if r.isSuccess(o) {
			s = append(s, o)
		}
	}
	return s
}

func (r *Run) isSuccess(o Out) bool {
	if len(o.res) == 0 {
		return true
	}
	t := o.res[len(o.res)-1]
	if b, ok := t.isBoolConst(); ok {
		return b
	}
	ty := r.fn.Signature.Results().At(len(o.res) - 1).Type()
	if isErrorType(ty) {
		return r.e.nilness(o.st, t) == yes
	}
	if isBool(ty) {
		return r.e.decideTerm(o.st, t) == yes
	}
	return true
}

func (r *Run) failure() []Out {
	var s []Out
	for _, o := range r.outs {
		if !r.isSuccess(o) {
			s = append(s, o)
		}
	}
	return s
}

// must: on every path to a success return the pattern is established.
func (r *Run) must(rule, pat, meaning string) bool {
	if r == nil {
		return false
	}
	return r.mustOn(r.success(), rule, pat, meaning)
}

func (r *Run) mustOn(outs []Out, rule, pat, meaning string) bool {
	con := fname(r.fn)
	if r.label != "" {
		con += " [" + r.label + "]"
	}
	if len(outs) == 0 {
		r.c.ob(rule, con, r.fn.Pos(), false, "no path reaches the return this rule speaks about; "+meaning)
		return false
	}
	ok := true
	for _, o := range outs {
		b := bmap{}
		for i, x := range o.res {
			b[fmt.Sprintf("res%d", i)] = r.e.view(o.st, x)
		}
		if !r.pm.Holds(o.st, pat, b) {
			dumpFacts(rule, o.st, b)
			r.c.ob(rule, con, o.pos, false, "a path returns here without establishing: "+meaning)
			ok = false
			break
		}
	}
	if ok {
		r.c.ob(rule, con, r.fn.Pos(), true, meaning)
		if os.Getenv("KC_DUMPOK") == rule {
			for _, o := range outs {
				for _, f := range o.st.facts.list() {
					fmt.Println("  #", f)
				}
			}
		}
	}
	return ok
}

func dumpFacts(rule string, st *State, b bmap) {
	if os.Getenv("KC_DUMP") != rule {
		return
	}
	for _, f := range st.facts.list() {
		fmt.Println("  #", f)
	}
	for k, v := range b {
		fmt.Println("  ", k, "=", v)
	}
}

// mutations of what hangs off the root term, that may have happened before the outcome
func (r *Run) mutated(o Out, root *Term) []string {
	var ss []string
	for f := range o.st.may.m {
		switch f.name {
		case "set", "put", "putfresh", "putfalse", "delete", "clear", "setelem":
			if len(f.args) > 0 && rootedIn(f.args[0], root) {
				ss = append(ss, fmt.Sprintf("%s %s at %s", f.name, f.args[0], r.c.p.At(f.pos)))
			}
		}
	}
	sort.Strings(ss)
	return ss
}

func rootedIn(t, root *Term) bool {
	for d := 0; d < 40 && t != nil; d++ {
		if t == root {
			return true
		}
		switch t.op {
		case OpField, OpElem, OpGet, OpFAddr, OpIAddr, OpIface, OpAs, OpSlice, OpUn:
			t = t.args[0]
		case OpCall, OpExtract:
			// what an interface kept under the root hands out by reference is part of what is kept
			if t.op == OpExtract {
				t = t.args[0]
				if t.op != OpCall {
					return false
				}
			}
			if len(t.args) == 0 || t.args[0].typ == nil || !types.IsInterface(t.args[0].typ) {
				return false
			}
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// field of the root the term hangs off
func rootField(t, root *Term) string {
	for d := 0; d < 40 && t != nil; d++ {
		switch t.op {
		case OpField, OpFAddr:
			if t.args[0] == root {
				return t.str
			}
			t = t.args[0]
		case OpElem, OpGet, OpIAddr, OpIface, OpAs, OpSlice, OpUn:
			t = t.args[0]
		default:
			return ""
		}
	}
	return ""
}

// reads: a query leaves these fields of its receiver, and what hangs off them, as they are.
func (r *Run) reads(rule string, fields []string, meaning string) {
	if r == nil {
		return
	}
	for _, o := range r.outs {
		for f := range o.st.may.m {
			switch f.name {
			case "set", "put", "putfresh", "putfalse", "delete", "clear", "setelem":
				if len(f.args) == 0 {
					continue
				}
				n := rootField(f.args[0], r.args[0])
				for _, x := range fields {
					if n == x {
						r.c.ob(rule, fname(r.fn), o.pos, false, fmt.Sprintf("%s: %s %s at %s", meaning, f.name, f.args[0], r.c.p.At(f.pos)))
						return
					}
				}
			}
		}
	}
	r.c.ob(rule, fname(r.fn), r.fn.Pos(), len(r.outs) > 0, meaning)
}

// unchanged: on the given outcomes nothing that hangs off the parameter was written.
func (r *Run) unchanged(outs []Out, rule string, arg int, meaning string) {
	if r == nil {
		return
	}
	con := fname(r.fn)
	for _, o := range outs {
		if ms := r.mutated(o, r.args[arg]); len(ms) > 0 {
			r.c.ob(rule, con, o.pos, false, meaning+": "+ms[0])
			return
		}
	}
	r.c.ob(rule, con, r.fn.Pos(), len(outs) > 0, meaning)
}

// ---- reporting --------------------------------------------------------------------------------

type Known struct{ prop, rule, construct, text string }

// known_findings.txt:  finding: property=<id> rule=<rule> construct=<construct> :: <what fails>
//
//	fixed: property=<id> <commit> <what failed>
func readKnown(verif string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding:"), "::")
		k := Known{text: strings.TrimSpace(text)}
		for _, kv := range []struct {
			key string
			dst *string
		}{{"property=", &k.prop}, {"rule=", &k.rule}, {"construct=", &k.construct}} {
			i := strings.Index(head, kv.key)
			if i < 0 {
				continue
			}
			v := head[i+len(kv.key):]
			for _, o := range []string{" property=", " rule=", " construct="} {
				if j := strings.Index(v, o); j >= 0 {
					v = v[:j]
				}
			}
			*kv.dst = strings.TrimSpace(v)
		}
		ks = append(ks, k)
	}
	return ks
}

func (c *Ctx) finish(verif string, t0 time.Time, info *CheckInfo) int {
	known := readKnown(verif)
	seen := map[string]bool{}
	var fails []Oblig
	disch := 0
	rules := map[string][2]int{}
	var knownHit []string
	for _, o := range c.obs {
		r := rules[o.Rule]
		r[0]++
		if o.OK {
			disch++
			r[1]++
			rules[o.Rule] = r
			continue
		}
		rules[o.Rule] = r
		isKnown := false
		for _, k := range known {
			if k.prop == c.id && k.rule == o.Rule && k.construct == o.Construct {
				isKnown = true
				key := "k" + k.rule + k.construct
				if !seen[key] {
					seen[key] = true
					line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.id, k.text)
					knownHit = append(knownHit, line)
					fmt.Println(line)
				}
			}
		}
		if isKnown {
			continue
		}
		key := o.Rule + "|" + o.Construct + "|" + o.Detail
		if !seen[key] {
			seen[key] = true
			fails = append(fails, o)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ruleList []map[string]any
	for _, k := range sortedKeys(rules) {
		ruleList = append(ruleList, map[string]any{"rule": k, "obligations": rules[k][0], "discharged": rules[k][1]})
	}
	var samples []string
	for i, o := range c.obs {
		if i%(1+len(c.obs)/12) == 0 {
			samples = append(samples, fmt.Sprintf("%s @ %s: %s", o.Rule, o.Construct, o.Detail))
		}
	}
	fl := sortedKeys(c.fns)
	cov := map[string]any{
		"explanation":           info.explain,
		"obligations":           len(c.obs),
		"discharged":            disch,
		"rules":                 ruleList,
		"instances":             c.counts,
		"functions_analysed":    fl,
		"functions":             len(fl),
		"block_states":          c.blocks,
		"source_functions_read": len(c.p.Funcs),
		"packages_read":         len(c.p.Pkgs),
		"samples":               samples,
		"notes":                 c.notes,
		"known_findings":        knownHit,
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(fails),
		"assumptions": info.assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d rules, %d functions, %.1fs\n", c.id, len(c.obs), disch, len(rules), len(fl), time.Since(t0).Seconds())
	rp := filepath.Join(verif, "evidence", c.id+".report.txt")
	os.Remove(rp)
	if len(fails) == 0 {
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n\n", c.id, info.title)
	sort.SliceStable(fails, func(i, j int) bool { return fails[i].Rule < fails[j].Rule })
	for _, o := range fails {
		s := fmt.Sprintf("%s: rule %s at %s: %s\n", o.Pos, o.Rule, o.Construct, o.Detail)
		sb.WriteString(s)
		fmt.Print("  ", s)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

type CheckInfo struct {
	id, title, explain string
	assume             []string
	run                func(c *Ctx)
}

var checks = map[string]*CheckInfo{}

func register(id, title, explain string, assume []string, run func(c *Ctx)) {
	checks[id] = &CheckInfo{id: id, title: title, explain: explain, assume: assume, run: run}
}

// runCheck decides one property; a failure of the machinery itself is reported as a violation with
// the reason, never as a pass.
func runCheck(p *Prog, loadErr error, id, verif string, t0 time.Time) (code int) {
	info := checks[id]
	if info == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{p: p, id: id, tier: tier, fns: map[string]bool{}, counts: map[string]int{}, runs: map[string]*Run{}}
	if loadErr != nil {
		c.p = &Prog{}
		c.obs = append(c.obs, Oblig{Rule: "load", Construct: "module", Pos: "?", Detail: loadErr.Error()})
		return c.finish(verif, t0, info)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("KC_PANIC") != "" {
					panic(r)
				}
				c.obs = append(c.obs, Oblig{Rule: "analysable", Construct: "checker", Pos: "?", Detail: fmt.Sprintf("the analysis stopped: %v", r)})
			}
		}()
		info.run(c)
	}()
	if len(c.obs) == 0 {
		c.obs = append(c.obs, Oblig{Rule: "instances", Construct: "obligations", Pos: "?", Detail: "no obligation was generated"})
	}
	return c.finish(verif, t0, info)
}
