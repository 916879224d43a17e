package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The structure of the messages (W03): for every command, the fields and types of the structures sent and
// received, computed from the type-checked program.

const (
	msgSync  = "{current_height:u32,top_id:data(u8)[32]}"
	msgNode  = "{local_time:u64,my_port:u32,network_id:data(u8)[16],peer_id:u64,version:u8}"
	msgPeers = "data(Address.IP=u32 Address.Port=u32 ID=u64 LastSeen=u64)"
	msgHash  = "data(u8*32)"
)

// msgRequests, msgAnswers, msgNotes: the structure of every message by command.
var msgRequests = map[int64]string{
	1001: "{node_data:" + msgNode + ",payload_data:" + msgSync + "}",
	1002: "{payload_data:" + msgSync + "}",
	1003: "{}",
}

var msgAnswers = map[int64]string{
	1001: "{local_peerlist:" + msgPeers + ",node_data:" + msgNode + ",payload_data:" + msgSync + "}",
	1002: "{local_peerlist:" + msgPeers + ",local_time:u64,payload_data:" + msgSync + "}",
	1003: "{peer_id:u64,status:text}",
}

const msgRawBlock = "{block:data(u8),txs?:list(data(u8))}"

var msgNotes = map[int64]string{
	2001: "{b:" + msgRawBlock + ",current_blockchain_height:u32,hop:u32}",
	2002: "{stem:bool,txs:" + msgHash + "}",
	2003: "{blocks:" + msgHash + ",txs:" + msgHash + "}",
	2004: "{blocks:list(" + msgRawBlock + "),current_blockchain_height:u32,missed_ids?:" + msgHash + "}",
	2006: "{block_ids:" + msgHash + "}",
	2007: "{m_block_ids:" + msgHash + ",start_height:u32,total_height:u32}",
	2008: "{txs:" + msgHash + "}",
	2009: "{block:data(u8),current_blockchain_height:u32,hop:u32}",
}

var basicName = map[types.BasicKind]string{
	types.Bool: "bool", types.Uint8: "u8", types.Uint16: "u16", types.Uint32: "u32", types.Uint64: "u64",
	types.Int8: "i8", types.Int16: "i16", types.Int32: "i32", types.Int64: "i64", types.Float64: "f64",
}

// packed: the layout encoding/binary gives a value of fixed size; ok is false when it has none.
func packed(t types.Type, name string) (string, bool) {
	pre := ""
	if name != "" {
		pre = name + "="
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, ok := basicName[u.Kind()]
		return pre + s, ok
	case *types.Array:
		s, ok := packed(u.Elem(), "")
		return fmt.Sprintf("%s%s*%d", pre, s, u.Len()), ok
	case *types.Struct:
		var l []string
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			if name != "" {
				n = name + "." + n
			}
			s, ok := packed(u.Field(i).Type(), n)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		return strings.Join(l, " "), true
	}
	return "", false
}

func valueSchema(t types.Type, asArray bool, d int) string {
	if d > 8 {
		return "?"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "text"
		}
		if s, ok := basicName[u.Kind()]; ok {
			return s
		}
	case *types.Struct:
		return recordSchema(u, d+1)
	case *types.Slice, *types.Array:
		el := u.(interface{ Elem() types.Type }).Elem()
		fixed := ""
		if a, ok := u.(*types.Array); ok {
			fixed = fmt.Sprintf("[%d]", a.Len())
		}
		if asArray {
			return "list(" + valueSchema(el, false, d+1) + ")" + fixed
		}
		if s, ok := packed(el, ""); ok {
			return "data(" + s + ")" + fixed
		}
		return "unwritable"
	}
	return "unwritable(" + t.String() + ")"
}

// recordSchema: the fields of the format, by name. Fields that can be neither written nor read and may be
// left out are no part of it.
func recordSchema(s *types.Struct, d int) string {
	var l []string
	for i := 0; i < s.NumFields(); i++ {
		tag, ok := reflect.StructTag(s.Tag(i)).Lookup("binary")
		if !ok {
			continue
		}
		w := strings.Split(tag, ",")
		arr, omit := false, false
		for _, o := range w[1:] {
			arr = arr || o == "array"
			omit = omit || o == "omitempty"
		}
		v := valueSchema(s.Field(i).Type(), arr, d)
		if omit && strings.HasPrefix(v, "unwritable") {
			continue
		}
		n := w[0]
		if omit {
			n += "?"
		}
		if !s.Field(i).Exported() {
			n += "(unexported)"
		}
		l = append(l, n+":"+v)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ",") + "}"
}

func messageSchema(t types.Type) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "no record: " + t.String()
	}
	return recordSchema(s, 0)
}

// typeLiteral: for each constant key of the map literal a variable is initialised with, the type of the
// value (or, when the values are types, the type they stand for).
func (c *Ctx) typeLiteral(obj types.Object) map[int64]types.Type {
	var r map[int64]types.Type
	for _, p := range c.p.Pkgs {
		if p.Types != obj.Pkg() {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				vs, ok := n.(*ast.ValueSpec)
				if !ok {
					return true
				}
				for i, name := range vs.Names {
					if p.TypesInfo.Defs[name] != obj || i >= len(vs.Values) {
						continue
					}
					lit, ok := ast.Unparen(vs.Values[i]).(*ast.CompositeLit)
					if !ok {
						continue
					}
					r = map[int64]types.Type{}
					for _, el := range lit.Elts {
						kv, ok := el.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						k, ok := constInt(p.TypesInfo.Types[kv.Key].Value)
						if !ok {
							k = -1
						}
						v := ast.Unparen(kv.Value)
						if call, ok := v.(*ast.CallExpr); ok && len(call.Args) == 1 && types.ExprString(call.Fun) == "reflect.TypeOf" {
							v = call.Args[0]
						}
						r[k] = p.TypesInfo.Types[v].Type
					}
				}
				return true
			})
		}
	}
	return r
}

// parsed: which structure each command is decoded into.
func (c *Ctx) parsed(fname0 string, want map[int64]string, only []int64) {
	fn := c.fn("p2p", "", fname0)
	r := c.run("", fn, EngCfg{PathMode: true, Opaque: func(f *ssa.Function) bool { return fname(f) == "binary.Unmarshal" }}, []string{"lc"})
	if r == nil {
		return
	}
	con := fname(fn)
	got := map[int64]types.Type{}
	why, pos := "", fn.Pos()
	set := func(s string, p token.Pos) {
		if why == "" {
			why, pos = s, p
		}
	}
	var tables []*Term
	for _, o := range r.success() {
		dumpFacts("decoded", o.st, nil)
		x := o.res[0]
		found := false
		for _, p := range []string{"reflect.TypeOf(get(v_m, lc.Command))", "get(v_m, lc.Command)"} {
			val := "reflect.New(" + p + ")"
			b := bmap{}
			if !r.isTermB(x, "reflect.Value.Interface(reflect.Value.Elem("+val+"))", b) {
				continue
			}
			found = true
			g, ok := r.e.globalOf(placeRoot(b["v_m"]))
			if !ok || !c.p.constGlobal(g) {
				set("the table of structures may change while the node runs", o.pos)
				continue
			}
			tables = append(tables, b["v_m"])
			for k, t := range c.typeLiteral(g.Object()) {
				got[k] = t
			}
			if !r.pm.Holds(o.st, "has(v_m, lc.Command)", b) {
				set("a message with an unknown command is accepted", o.pos)
			}
			if !r.pm.Holds(o.st, "nil == binary.Unmarshal(lc.Payload, reflect.Value.Interface("+val+"))", b) {
				set("a message is accepted although its content could not be decoded into the structure returned", o.pos)
			}
		}
		if found {
			continue
		}
		k := r.valueOf(o.st, r.e.load(o.st, r.e.fieldAddr(r.args[0], fn.Params[0].Type(), "Command")))
		if x.op != OpIface || k < 0 {
			set("the structure of a message cannot be determined", o.pos)
			continue
		}
		got[k] = x.typ
		b, ok := r.pm.HoldsB(o.st, "nil == binary.Unmarshal(lc.Payload, v_x)", bmap{})
		if !ok || b["v_x"].op != OpIface && b["v_x"].typ == nil || !types.Identical(derefType(b["v_x"].typ), x.typ) {
			set("a message is accepted although its content could not be decoded into the structure returned", o.pos)
		}
	}
	for _, o := range r.failure() {
		ok := r.pm.Holds(o.st, "nil != binary.Unmarshal(_, _)", nil)
		for _, m := range tables {
			ok = ok || r.pm.Holds(o.st, "!has(v_m, lc.Command)", bmap{"v_m": m})
		}
		if len(tables) == 0 && !ok {
			ok = true
			for _, k := range only {
				ok = ok && r.pm.Holds(o.st, fmt.Sprintf("lc.Command != %d", k), nil)
			}
		}
		if !ok {
			set("a message of a known command that can be decoded is refused", o.pos)
		}
	}
	c.ob("decoded", con, pos, why == "", why)
	for _, k := range only {
		t := got[k]
		w := fmt.Sprintf("messages with command %d are not decoded", k)
		if t != nil {
			w = fmt.Sprintf("command %d is decoded as %s, not %s", k, messageSchema(t), want[k])
		}
		c.ob("structure", fmt.Sprintf("%s: command %d", con, k), fn.Pos(), t != nil && messageSchema(t) == want[k], w)
		delete(got, k)
	}
	for k := range got {
		c.ob("structure", fmt.Sprintf("%s: command %d", con, k), fn.Pos(), false, fmt.Sprintf("command %d has no structure", k))
	}
}

func (r *Run) isTermB(t *Term, pat string, b bmap) bool {
	ok := false
	r.pm.term(r.pm.parse(pat), t, b, func(x bmap) bool {
		for k, v := range x {
			b[k] = v
		}
		ok = true
		return true
	})
	return ok
}

// sendSite: the command and payloads of a sending call, with parameters traced to the callers.
type sendSite struct {
	pos token.Pos
	fn  *ssa.Function
	cmd ssa.Value
	val []ssa.Value
}

func (c *Ctx) calls(match func(*ssa.Function) bool) (r []ssa.CallInstruction) {
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && match(f) {
						r = append(r, call)
					}
				}
			}
		}
	}
	return
}

func (c *Ctx) expand(s sendSite, d int) []sendSite {
	params := map[ssa.Value]int{}
	mentions := false
	for i, p := range s.fn.Params {
		params[p] = i
	}
	through := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Convert:
				if _, ok := x.X.(*ssa.Const); !ok {
					return v
				}
				v = x.X
			default:
				return v
			}
		}
	}
	s.cmd = through(s.cmd)
	_, mentions = params[s.cmd]
	for i := range s.val {
		s.val[i] = through(s.val[i])
		if _, ok := params[s.val[i]]; ok {
			mentions = true
		}
	}
	if !mentions || d > 4 {
		return []sendSite{s}
	}
	var r []sendSite
	for _, call := range c.calls(func(f *ssa.Function) bool { return f == s.fn }) {
		sub := func(v ssa.Value) ssa.Value {
			if i, ok := params[v]; ok && i < len(call.Common().Args) {
				return call.Common().Args[i]
			}
			return v
		}
		n := sendSite{pos: call.Pos(), fn: call.Parent(), cmd: sub(s.cmd)}
		for _, v := range s.val {
			n.val = append(n.val, sub(v))
		}
		r = append(r, c.expand(n, d+1)...)
	}
	return r
}

// dynTypes: the types of the values an interface may hold here.
func dynTypes(v ssa.Value, seen map[ssa.Value]bool) (r []types.Type) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.ChangeInterface:
		return dynTypes(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			r = append(r, dynTypes(e, seen)...)
		}
		return r
	}
	return []types.Type{nil}
}

func (c *Ctx) sentMessages() {
	send := func(method string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return fname(f) == "p2p.LevinProtocol."+method }
	}
	sites := 0
	check := func(method string, args []int, cmds map[int64]bool, schemas ...func(k int64) string) {
		for _, call := range c.calls(send(method)) {
			a := call.Common().Args
			s := sendSite{pos: call.Pos(), fn: call.Parent(), cmd: a[1]}
			for _, i := range args {
				s.val = append(s.val, a[i])
			}
			for _, x := range c.expand(s, 0) {
				sites++
				con := fname(x.fn) + ": " + method
				k, ok := int64(-1), false
				if cst, is := x.cmd.(*ssa.Const); is && cst.Value != nil {
					k, ok = constInt(cst.Value)
				}
				if method != "Reply" && !ok {
					c.ob("sent", con, x.pos, false, "the command of a message is no constant")
					continue
				}
				for i, v := range x.val {
					for _, t := range dynTypes(v, map[ssa.Value]bool{}) {
						if t == nil {
							c.ob("sent", con, x.pos, false, "the structure of a message cannot be determined")
							continue
						}
						answer := method == "Invoke" && i == 1
						if answer {
							p, isP := t.Underlying().(*types.Pointer)
							if !isP {
								c.ob("sent", con, x.pos, false, "an answer is decoded into a value that is no pointer")
								continue
							}
							t = p.Elem()
						}
						got := messageSchema(t)
						if method == "Reply" {
							known := false
							for _, w := range msgAnswers {
								known = known || w == got
							}
							c.ob("sent", con, x.pos, known, "an answer is sent that has the structure of none: "+got)
							continue
						}
						want := schemas[i](k)
						what := "a message"
						if answer {
							what = "the answer"
						}
						c.ob("sent", con+" "+fmt.Sprint(k)+" "+what, x.pos, got == want, fmt.Sprintf("%s of command %d has the structure %s, not %s", what, k, got, want))
					}
				}
			}
		}
	}
	at := func(m map[int64]string) func(int64) string {
		return func(k int64) string {
			if s, ok := m[k]; ok {
				return s
			}
			return "(none: the command is unknown)"
		}
	}
	check("Notify", []int{2}, nil, at(msgNotes))
	check("Invoke", []int{2, 3}, nil, at(msgRequests), at(msgAnswers))
	check("Reply", []int{2}, nil)
	c.need("sending calls", sites, 4)
	c.counts["structures sent"] = sites
}

func init() {
	register("W03", "Message structures", "", nil, func(c *Ctx) {
		c.parsed("parseCommand", msgRequests, []int64{1001, 1002})
		c.parsed("parseNotification", msgNotes, []int64{2001, 2002, 2003, 2004, 2006, 2007, 2008, 2009})
		c.sentMessages()
		c.replyRules()
	})
}
