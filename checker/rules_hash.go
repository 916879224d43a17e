package main

import (
	"fmt"
	"os"
)

// Rules about the hash functions and the list of hashes.

// seedPointee: the pointer parameter points to a variable of its own that holds the pattern's value.
func seedPointee(arg int) Seed {
	return func(e *Eng, args []*Term, st *State) {
		v := args[arg]
		el := derefType(v.typ)
		o := e.in.mk(Term{op: OpObj, str: "heap", uid: "param:" + v.str, typ: el})
		st.store[o] = e.in.mk(Term{op: OpParam, str: "*" + v.str, typ: el})
		args[arg] = o
	}
}

// hashesOf: the value is the 32 byte Keccak hash of exactly the given parameter.
func (r *Run) hashesOf(rule string, v func(o Out) *Term, data *Term, whole bool, meaning string) {
	con := fname(r.fn)
	n := 0
	for _, o := range r.outs {
		if o.panicked {
			continue
		}
		n++
		t := v(o)
		if os.Getenv("KC_DUMP") == rule {
			fmt.Println("  >", t)
		}
		ok := false
		if t != nil {
			if whole {
				ok = t.op == OpCall && t.str == "keccak256"
			} else {
				ok = true
			}
		}
		if ok {
			k, is := keccakOf(t)
			ops, known := []wop(nil), false
			if is {
				ops, known = r.e.wops(k, nil, 0)
			}
			ok = known && len(ops) == 1 && ops[0].kind == "bytes" && ops[0].val == data
		}
		if !ok {
			r.c.ob(rule, con, o.pos, false, "not the Keccak hash of exactly the given bytes")
			return
		}
	}
	r.c.ob(rule, con, r.fn.Pos(), n > 0, meaning)
}

func (c *Ctx) hashRules() {
	cfg := EngCfg{Streams: true, PathMode: true, Fields: true}
	if fn := c.fn("crypto", "", "Keccak"); fn != nil {
		if r := c.run("", fn, cfg, []string{"data"}); r != nil {
			r.hashesOf("keccak", func(o Out) *Term { return r.e.view(o.st, o.res[0]) }, r.args[0], true, "Keccak-256 of exactly the data")
		}
	}
	if fn := c.fn("crypto", "", "HashFromBytes"); fn != nil {
		if r := c.run("", fn, cfg, []string{"data"}); r != nil {
			r.hashesOf("hash-of-bytes", func(o Out) *Term { return r.e.view(o.st, o.res[0]) }, r.args[0], false, "the hash is the 32 bytes of Keccak-256")
		}
	}
	if fn := c.fn("crypto", "Hash", "FromBytes"); fn != nil {
		if r := c.run("", fn, cfg, []string{"hash", "data"}, seedPointee(0)); r != nil {
			r.hashesOf("hash-of-bytes", func(o Out) *Term { return r.e.view(o.st, r.args[0]) }, r.args[1], false, "the hash is the 32 bytes of Keccak-256")
		}
	}
	c.hashListRules(cfg)
}

func (c *Ctx) hashListRules(cfg EngCfg) {
	for _, name := range []string{"Index", "Has", "Remove"} {
		fn := c.fn("crypto", "HashList", name)
		if fn == nil {
			continue
		}
		r := c.run("", fn, cfg, []string{"hl", "h"}, seedPointee(0))
		if r == nil {
			continue
		}
		con := fname(fn)
		e := r.e
		list := e.in.mk(Term{op: OpParam, str: "*" + fn.Params[0].Name(), typ: derefType(fn.Params[0].Type())})
		h := r.args[1]
		r.pm.params["hl"], r.pm.params["h"] = list, h
		n := e.in.Len(list)
		bad := false
		var loop *Loop
		for _, l := range e.loops {
			if len(l.backs) > 0 {
				if loop != nil {
					c.ob("hash-list", con, fn.Pos(), false, "more than one loop")
					bad = true
				}
				loop = l
			}
		}
		if loop == nil || bad {
			c.ob("hash-list", con, fn.Pos(), false, "no loop over the list")
			continue
		}
		for _, b := range loop.backs {
			if !r.pm.Holds(b, "hl[i] != h", bmap{"i": loop.iter}) || !e.loopWithin(b, loop.iter, n, list) {
				c.ob("hash-list", con, fn.Pos(), false, "a round goes past an element that equals the hash")
				bad = true
				break
			}
		}
		found, missing := 0, 0
		for _, o := range r.outs {
			if bad || o.panicked {
				continue
			}
			x := bmap{"i": loop.iter}
			at := r.pm.Holds(o.st, "hl[i] == h", x) && e.loopWithin(o.st, loop.iter, n, list)
			none := e.loopDone(o.st, loop.iter, n, list)
			ok := at != none
			if at {
				found++
			} else {
				missing++
			}
			var got *Term
			if len(o.res) > 0 {
				got = e.view(o.st, o.res[0])
			} else {
				got = e.view(o.st, r.args[0])
			}
			if os.Getenv("KC_DUMP") == "hash-list" {
				fmt.Println("  >", name, at, none, got)
			}
			switch name {
			case "Index":
				if at {
					ok = ok && got == loop.iter
				} else if k, is := got.intConst(); !is || k.Sign() >= 0 {
					ok = false
				}
			case "Has":
				ok = ok && e.decideTerm(o.st, got) == map[bool]tri{true: yes, false: no}[at]
			case "Remove":
				if at {
					want := "append(hl[:i], hl[i+1:]...)"
					_ = want
					ok = ok && got.op == OpAppend && len(got.args) == 2 && isSliceOf(got.args[0], list, nil, loop.iter) && isSliceOf(got.args[1], list, e.in.Add(loop.iter, e.in.Int(1)), nil)
				} else {
					ok = ok && got == list
				}
			}
			if !ok {
				c.ob("hash-list", con, o.pos, false, "a path answers differently from whether the list has the hash")
				bad = true
			}
		}
		if !bad {
			c.ob("hash-list", con, fn.Pos(), found > 0 && missing > 0, map[string]string{"Index": "the first position of the hash, or a negative number if the list lacks it", "Has": "true exactly if the list has the hash", "Remove": "the first occurrence is taken out, everything else stays"}[name])
		}
	}
}

// isSliceOf: t is l[lo:hi]; nil bounds are the list's own.
func isSliceOf(t, l, lo, hi *Term) bool {
	t = stripConv(t)
	if t.op != OpSlice || t.args[0] != l {
		return false
	}
	a := t.args[1] == lo || lo == nil && (t.args[1].isNil() || isZeroInt(t.args[1]))
	b := t.args[2] == hi || hi == nil && t.args[2].isNil()
	return a && b
}

func init() {
	register("H01", "Hashing", "", nil, func(c *Ctx) { c.hashRules() })
}
