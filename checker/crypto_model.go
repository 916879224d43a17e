package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The curve arithmetic (package edwards25519) is taken as a set of named mathematical functions: each
// call is a term over the values of its inputs, stored to where the function writes its result. What is
// decided is which of them the code applies to what, and which answers it insists on.

// edOut: the parameter (receiver first) a function writes its result to.
var edOut = map[string]int{
	"GeScalarMultBase": 0, "GeDoubleScalarMultBaseVartime": 0, "GeDoubleScalarMultPrecompVartime": 0,
	"GeMul8": 0, "GeAdd": 0, "GeSub": 0, "ScMulAdd": 0,
	"ExtendedGroupElement.FromBytes": 0, "ProjectiveGroupElement.FromBytes": 0,
	"ExtendedGroupElement.ToCached": 1, "ExtendedGroupElement.ToProjective": 1, "ExtendedGroupElement.Double": 1,
	"ProjectiveGroupElement.Double": 1, "CompletedGroupElement.ToProjective": 1, "CompletedGroupElement.ToExtended": 1,
}

const edPkg = "edwards25519."

func (fr *frame) edModel(b *ssa.BasicBlock, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *State) ([]Out, bool) {
	e := fr.e
	if !strings.HasPrefix(name, edPkg) {
		return nil, false
	}
	n := name[len(edPkg):]
	out, writes := edOut[n]
	var vs []*Term
	for i, a := range args {
		if writes && i == out {
			continue
		}
		vs = append(vs, e.canonBytes(st, e.view(st, a)))
	}
	sig := c.Signature()
	if n == "ScZero" && len(vs) == 0 {
		return []Out{{res: []*Term{e.in.mk(Term{op: OpCall, str: edPkg + "ScZero", typ: sig.Results().At(0).Type()})}, st: st}}, true
	}
	if !writes {
		if sig.Results().Len() != 1 {
			return nil, false
		}
		return []Out{{res: []*Term{e.in.mk(Term{op: OpCall, str: name, args: vs, typ: sig.Results().At(0).Type()})}, st: st}}, true
	}
	dst := unIface(args[out])
	var pt types.Type
	if dst.typ != nil {
		pt = derefType(dst.typ)
	}
	v := e.in.mk(Term{op: OpCall, str: strings.Replace(name, "FromBytes", "Point", 1), args: vs, typ: pt})
	if isPlace(dst) {
		fr.storeTo(st, dst, v, b, in)
	} else {
		e.problem("the result of %s goes to an unknown place", name)
	}
	if sig.Results().Len() == 0 {
		return []Out{{st: st}}, true
	}
	// FromBytes tells whether the bytes encode a point of the curve
	ok := e.in.mk(Term{op: OpCall, str: name, args: vs, typ: sig.Results().At(0).Type()})
	return []Out{{res: []*Term{ok}, st: st}}, true
}

// canonBytes: a byte array that was assembled from one known array of its size is that array.
func (e *Eng) canonBytes(st *State, v *Term) *Term {
	return v
}

func cryptoCfg(streams bool, opaque ...string) EngCfg {
	m := map[string]bool{}
	for _, o := range opaque {
		m[o] = true
	}
	return EngCfg{
		Streams: streams, PathMode: streams, Fields: true, TrackSet: true,
		Opaque: func(f *ssa.Function) bool {
			n := fname(f)
			return strings.HasPrefix(n, edPkg) && n != edPkg+"GeFromBytes" || m[n]
		},
		Impure: func(n string) bool { return n == "crypto.RandomScalar" },
		Model:  (*frame).edModel,
	}
}

// isInfinity: the encoding of the neutral element, 1 followed by zeros.
func (e *Eng) isInfinity(t *Term) bool {
	if t.op != OpComp || t.typ == nil {
		return false
	}
	a, ok := derefType(t.typ).Underlying().(*types.Array)
	if !ok || a.Len() != 32 {
		return false
	}
	for i := int64(0); i < 32; i++ {
		x, ok := e.in.Elem(t, e.in.Int(i), a.Elem()).intConst()
		if !ok || x.Int64() != map[bool]int64{true: 1, false: 0}[i == 0] {
			return false
		}
	}
	return true
}
