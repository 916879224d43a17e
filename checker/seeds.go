package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

// Seeds restrict a run to a region of the inputs (a block version, a range of heights): the facts are
// assumed at entry, and branches that contradict them are not followed.

// sel builds the term of base.name, going through embedded structs.
func (e *Eng) sel(base *Term, t types.Type, name string) (*Term, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		if n, ok := derefType(t).(*types.Named); ok {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		return nil, nil
	}
	for _, i := range idx {
		s := derefType(t).Underlying().(*types.Struct)
		f := s.Field(i)
		base = e.in.Field(base, fieldName(s, i), f.Type(), 0)
		t = f.Type()
	}
	return base, t
}

func (e *Eng) callOn(name string, res types.Type, args ...*Term) *Term {
	return e.in.mk(Term{op: OpCall, str: name, args: args, typ: res})
}

func (e *Eng) assumeCmp(st *State, op token.Token, t *Term, c int64) {
	e.assume(st, e.in.cmpFact(op, t, e.in.Const(constant.MakeInt64(c), t.typ), true, true))
}

// seedIndex: lo <= Block.Index(args[arg]) <= hi (hi < 0: unbounded).
func seedIndex(arg int, lo, hi int64) Seed {
	return func(e *Eng, args []*Term, st *State) {
		t := e.callOn("cryptonote.Block.Index", types.Typ[types.Uint32], args[arg])
		e.assumeCmp(st, token.GEQ, t, lo)
		if hi >= 0 {
			e.assumeCmp(st, token.LEQ, t, hi)
		}
	}
}

// seedField: args[arg].name op c
func seedField(arg int, name string, op token.Token, c int64) Seed {
	return func(e *Eng, args []*Term, st *State) {
		t, _ := e.sel(args[arg], args[arg].typ, name)
		if t == nil {
			e.problem("no field %s", name)
			return
		}
		e.assumeCmp(st, op, t, c)
	}
}

var _ = big.NewInt

// fieldAddr is the place of a direct field of *base.
func (e *Eng) fieldAddr(base *Term, t types.Type, name string) *Term {
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.in.mk(Term{op: OpFAddr, str: fieldName(s, i), uid: structName(t), args: []*Term{base}, typ: s.Field(i).Type()})
		}
	}
	return nil
}

// seedParamBool: the boolean parameter is known.
func seedParamBool(arg int, v bool) Seed {
	return func(e *Eng, args []*Term, st *State) { e.assumeTerm(st, args[arg], v) }
}
