package main

import (
	"fmt"
	"go/types"
)

// The root of a list of hashes: for every length the function is evaluated over unknown hashes, with the
// hash of bytes as an uninterpreted function, and what it returns is compared with the tree the protocol
// prescribes.

func (s *shape) pair(a, b interface{}) interface{} {
	return s.hash(append(append([]interface{}{}, a.(*shAgg).el...), b.(*shAgg).el...))
}

// root: the CryptoNote tree. The hashes that exceed the largest power of two below the number of leaves are
// joined in pairs at the end of the list, the result is a complete binary tree.
func (s *shape) root(l []interface{}) interface{} {
	if len(l) == 1 {
		return l[0]
	}
	cnt := 1
	for cnt*2 < len(l) {
		cnt *= 2
	}
	if cnt*2 == len(l) {
		cnt = len(l)
	}
	n := 2*cnt - len(l)
	row := append([]interface{}{}, l[:n]...)
	for i := n; i < len(l); i += 2 {
		row = append(row, s.pair(l[i], l[i+1]))
	}
	for len(row) > 1 {
		var up []interface{}
		for i := 0; i < len(row); i += 2 {
			up = append(up, s.pair(row[i], row[i+1]))
		}
		row = up
	}
	return row[0]
}

func (c *Ctx) merkleRules() {
	max, deep := 140, 40
	if c.tier == "thorough" {
		max, deep = 520, 200
	}
	newShape := func() *shape { return &shape{c: c, names: map[string]int{}, fns: c.fns} }
	value := func(v interface{}) interface{} {
		if p, ok := v.(shPtr); ok {
			return p.in.el[p.i]
		}
		return v
	}
	box := func(v interface{}, t types.Type) interface{} { // as the parameter takes it
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return shPtr{&shAgg{el: []interface{}{v}}, 0}
		}
		return v
	}
	list := func(s *shape, n int) (shSlice, []interface{}) {
		a, was := &shAgg{}, []interface{}{}
		for i := 0; i < n; i++ {
			h := s.fresh(fmt.Sprint("leaf ", i))
			a.el = append(a.el, h)
			was = append(was, shCopy(h))
		}
		return shSlice{a, 0, n, n}, was
	}
	same := func(l shSlice, was []interface{}) bool {
		for i, x := range was {
			if !shEqual(x, l.in.el[i]) {
				return false
			}
		}
		return true
	}
	if fn := c.fn("crypto", "HashList", "MerkleRootHash"); fn != nil && len(fn.Params) == 1 {
		for n := 1; n <= max; n++ {
			s := newShape()
			l, was := list(s, n)
			r, why := s.eval(fn, box(l, fn.Params[0].Type()))
			ok := why == "" && len(r) == 1 && shEqual(value(r[0]), s.root(was))
			kept := ok && same(l, was)
			c.ob("merkle-root", fmt.Sprintf("%s [%d hashes]", fname(fn), n), fn.Pos(), ok, "the root of the tree over the hashes: "+why)
			if !ok {
				break
			}
			c.ob("list-unchanged", fmt.Sprintf("%s [%d hashes]", fname(fn), n), fn.Pos(), kept, "the list is as it was")
			if !kept {
				break
			}
		}
	}
	if fn := c.fn("crypto", "HashList", "TreeHashFromBranch"); fn != nil && len(fn.Params) == 2 {
		for n := 0; n <= deep; n++ {
			s := newShape()
			l, was := list(s, n)
			leaf := s.fresh("leaf")
			r, why := s.eval(fn, box(l, fn.Params[0].Type()), box(shCopy(leaf), fn.Params[1].Type()))
			want := interface{}(leaf)
			for i := n - 1; i >= 0; i-- {
				want = s.pair(want, was[i])
			}
			ok := why == "" && len(r) == 1 && shEqual(value(r[0]), want) && same(l, was)
			c.ob("branch-root", fmt.Sprintf("%s [%d hashes]", fname(fn), n), fn.Pos(), ok, "the leaf hashed with the hashes of the branch, from the last to the first: "+why)
			if !ok {
				break
			}
		}
	}
}

func init() {
	register("H02", "The root of a hash list", "Constant propagation through MerkleRootHash and TreeHashFromBranch for every length, contents uninterpreted.", nil, func(c *Ctx) { c.merkleRules() })
}
