package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about signatures, keys and hashes. The curve arithmetic is uninterpreted (crypto_model.go).

func seedGlobals(e *Eng, args []*Term, st *State) {}

// cryptoRun analyses a function of package crypto, each path separately.
func (c *Ctx) cryptoRun(typ, name string, params []string, streams bool, opaque ...string) *Run {
	fn := c.fn("crypto", typ, name)
	if fn == nil {
		return nil
	}
	return c.run("", fn, cryptoCfg(streams, append(opaque, "crypto.HashFromBytes", "crypto.Keccak")...), params, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })
}

// exactly: every accepting path establishes all the conditions; every other path refutes one of them.
func (r *Run) exactly(rule string, conds [][3]string) {
	if r == nil {
		return
	}
	for _, c := range conds {
		r.must(rule, c[0], c[2])
	}
	r.onlyIf(rule+"-only", conds)
}

func (r *Run) onlyIf(rule string, conds [][3]string) {
	if r == nil {
		return
	}
	for _, o := range r.failure() {
		if o.panicked {
			continue
		}
		ok := false
		b := bmap{}
		for i, x := range o.res {
			b["res"+string(rune('0'+i))] = r.e.view(o.st, x)
		}
		for _, c := range conds {
			if c[1] != "" && r.pm.Holds(o.st, c[1], b) {
				ok = true
			}
		}
		if !ok {
			dumpFacts(rule, o.st, b)
			r.c.ob(rule, fname(r.fn), o.pos, false, "refused although none of the reasons for refusing holds")
			return
		}
	}
	r.c.ob(rule, fname(r.fn), r.fn.Pos(), true, "refused only for one of the stated reasons")
}

const (
	sigComm  = "ToBytes(GeDoubleScalarMultBaseVartime(sig.C, ExtendedGroupElement.Point(publicKey), sig.R))"
	sigHash  = "ScReduce32(HashFromBytes(cat(hash, publicKey, " + sigComm + ")))"
	scalarOf = "ScReduce32(HashFromBytes(cat(derivation, uv(outputIndex))))"
	pubOf    = "ToBytes(GeScalarMultBase(%))"
	hashToEc = "ToExtended(GeMul8(ProjectiveGroupElement.Point(HashFromBytes(%))))"
)

func subst(s, x string) string { return strings.ReplaceAll(s, "%", x) }

func (c *Ctx) signatureRules() {
	r := c.cryptoRun("Signature", "Check", []string{"sig", "hash", "publicKey"}, true)
	r.exactly("valid-signature", [][3]string{
		{"ExtendedGroupElement.FromBytes(publicKey)", "!ExtendedGroupElement.FromBytes(publicKey)", "the public key is a point of the curve"},
		{"ScCheck(sig.C)", "!ScCheck(sig.C)", "the first scalar is reduced"},
		{"ScCheck(sig.R)", "!ScCheck(sig.R)", "the second scalar is reduced"},
		{"ScIsNonZero(sig.C)", "!ScIsNonZero(sig.C)", "the first scalar is not zero"},
		{sigComm + " != infinity()", sigComm + " == infinity()", "the commitment is not the neutral element"},
		{"!ScIsNonZero(ScSub(sig.C, " + sigHash + ")) || !ScIsNonZero(ScSub(" + sigHash + ", sig.C)) || sig.C == " + sigHash,
			"ScIsNonZero(ScSub(sig.C, " + sigHash + ")) || ScIsNonZero(ScSub(" + sigHash + ", sig.C)) || sig.C != " + sigHash,
			"the first scalar is the hash of message, public key and the commitment rebuilt from the signature"},
	})
	s := c.cryptoRun("Hash", "Sign", []string{"hash", "secretKey"}, true)
	if s == nil {
		return
	}
	own := "ScReduce32(HashFromBytes(cat(hash, " + subst(pubOf, "secretKey") + ", " + subst(pubOf, "v_k") + ")))"
	s.must("signing", "ScCheck(secretKey)", "only a valid secret key signs")
	s.must("signing", "result(0, Signature{C: "+own+", R: ScMulSub("+own+", secretKey, v_k)}) && val(v_k, random())", "the signature is made of the hash of message, public key and commitment and of the response to it, for one random scalar")
	s.must("signing", "result(0, Signature{C: v_c, R: v_r}) && ScIsNonZero(v_c) && ScIsNonZero(v_r)", "no scalar of the signature is zero")
}

const (
	ringL   = "ToBytes(GeDoubleScalarMultBaseVartime(sigs[i].C, ExtendedGroupElement.Point(pubs[i]), sigs[i].R))"
	ringR   = "ToBytes(GeDoubleScalarMultPrecompVartime(sigs[i].R, ToExtended(GeMul8(ProjectiveGroupElement.Point(HashFromBytes(pubs[i])))), sigs[i].C, GeDSMPreComp(ExtendedGroupElement.Point(image))))"
	ringBuf = "r0(toScalar(ringBuf{hash: prefixHash, sigs: v_b}))"
	ringSum = "init(v_sum, ScZero()) && all(i, pubs, step(v_sum, ScAdd(v_sum, sigs[i].C)))"
	ringEv  = "all(i, pubs, ev(\"set\", v_b[i].C, " + ringL + ") && ev(\"set\", v_b[i].R, " + ringR + "))"
)

func (c *Ctx) ringRules() {
	names := []string{"prefixHash", "image", "pubs", "sigs", "checkKeyImage"}
	fn := c.fn("crypto", "", "CheckRingSignature")
	if fn == nil {
		return
	}
	mk := func(label string, path bool, seeds ...Seed) *Run {
		cfg := cryptoCfg(path, "crypto.HashFromBytes", "crypto.Keccak", "crypto.ringBuf.toScalar")
		return c.run(label, fn, cfg, names, append(seeds, func(e *Eng, args []*Term, st *State) { e.importGlobals(fn.Pkg, st) })...)
	}
	r := mk("", false)
	for _, x := range [][2]string{
		{"len(pubs) == len(sigs)", "there are as many signatures as keys in the ring"},
		{"all(i, pubs, ExtendedGroupElement.FromBytes(pubs[i]))", "each ring key is a point of the curve"},
		{"ExtendedGroupElement.FromBytes(image)", "the key image is a point of the curve"},
		{"all(i, pubs, ScCheck(sigs[i].C) && ScCheck(sigs[i].R))", "each scalar of each signature is reduced"},
		{ringSum, "the challenges of all ring members are summed, starting from zero"},
		{ringEv, "the two commitments of each ring member are rebuilt from its own key, its own signature and the image"},
		{"(!ScIsNonZero(ScSub(" + ringBuf + ", v_sum)) || !ScIsNonZero(ScSub(v_sum, " + ringBuf + "))) && " + ringSum + " && " + ringEv, "the sum of the challenges is the hash of the message and all commitments"},
	} {
		r.must("valid-ring-signature", x[0], x[1])
	}
	mk("with the image's subgroup checked", false, seedParamBool(4, true)).must("valid-ring-signature", "GeCheckSubGroupPreCompVartime(GeDSMPreComp(ExtendedGroupElement.Point(image))) == 0", "the image lies in the prime-order subgroup")
	pr := mk("", true)
	for _, o := range pr.success() {
		x, ok := bmap{}, false
		for _, p := range []string{"ScIsNonZero(ScSub(" + ringBuf + ", v_sum))", "ScIsNonZero(ScSub(v_sum, " + ringBuf + "))"} {
			if y, holds := pr.pm.HoldsB(o.st, "!"+p, nil); holds {
				x, ok = y, true
			}
		}
		if !ok {
			c.ob("ring-rounds", fname(fn), o.pos, false, "accepted without comparing the sum of challenges")
			return
		}
		pr.ringRounds("ring-rounds", o, x, [][]string{{"i < len(pubs)", strings.TrimSpace(ringL), ringR, "ScAdd(v_sum, sigs[i].C)", "", ""}})
	}
	pr.onlyIf("valid-ring-signature-only", [][3]string{
		{"", "len(pubs) != len(sigs)", ""},
		{"", "!ExtendedGroupElement.FromBytes(pubs[v_i])", ""},
		{"", "!ExtendedGroupElement.FromBytes(image)", ""},
		{"", "!ScCheck(sigs[v_i].C)", ""},
		{"", "!ScCheck(sigs[v_i].R)", ""},
		{"", "checkKeyImage && GeCheckSubGroupPreCompVartime(GeDSMPreComp(ExtendedGroupElement.Point(image))) != 0", ""},
		{"", "ProjectiveGroupElement.FromBytes(HashFromBytes(pubs[v_i])) != nil", ""},
		{"", "r1(toScalar(_)) != nil", ""},
		{"", "ScIsNonZero(ScSub(" + ringBuf + ", v_sum)) || ScIsNonZero(ScSub(v_sum, " + ringBuf + "))", ""},
	})
}

// elemField: what field name of element idx of the list holds at st.
func (e *Eng) elemField(st *State, l, idx *Term, name string) *Term {
	sl, ok := l.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	p := e.in.mk(Term{op: OpIAddr, args: []*Term{l, idx}, typ: sl.Elem()})
	f := e.fieldAddr(p, sl.Elem(), name)
	if f == nil {
		return nil
	}
	return e.load(st, f)
}

// writesTo: where the function stores into the list or its elements.
func (e *Eng) writesTo(l *Term) []*Obs {
	var r []*Obs
	for _, o := range e.obs {
		if (o.name == "set" || o.name == "setelem") && len(o.args) > 0 {
			for t := o.args[0]; t != nil; {
				if t == l {
					r = append(r, o)
					break
				}
				if len(t.args) == 0 {
					break
				}
				t = t.args[0]
			}
		}
	}
	return r
}

// ringRounds: every round of the loop over the ring leaves in the commitments of its member what one of the
// alternatives asks for, takes the sum of challenges further accordingly, and touches no other member's.
// Each alternative: condition of the round, commitments L and R, next sum, values of v_s[i].C and v_s[i].R
// (empty: untouched).
func (r *Run) ringRounds(rule string, o Out, b bmap, alts [][]string) {
	e, con := r.e, fname(r.fn)
	bad := func(f string, a ...interface{}) { r.c.ob(rule, con, o.pos, false, fmt.Sprintf(f, a...)) }
	info := e.lvs[b["v_sum"]]
	if info == nil {
		bad("the challenges are not summed in a loop")
		return
	}
	lp := e.loops[info.loop]
	n := e.in.Len(r.pm.params["pubs"])
	if !e.loopDone(o.st, lp.iter, n, n) {
		bad("the loop may end before the last ring member")
		return
	}
	if len(info.init.args) != 0 || info.init.op != OpCall || info.init.str != edPkg+"ScZero" {
		bad("the sum of challenges does not start from zero")
		return
	}
	for _, l := range []string{"v_b", "v_s"} {
		if b[l] == nil {
			continue
		}
		for _, w := range e.writesTo(b[l]) {
			in := false
			for _, a := range w.active {
				in = in || a == lp.id
			}
			at := w.args[0]
			if at.op == OpFAddr || at.op == OpField {
				at = at.args[0]
			}
			if in && len(at.args) == 2 && at.args[1] == lp.iter || l == "v_s" && !in {
				continue
			}
			r.c.ob(rule, con, w.pos, false, "a value of another ring member, or after the loop, is overwritten")
			return
		}
	}
	seen := map[int]bool{}
	for _, s := range info.steps {
		x := b.with("i", lp.iter)
		match := -1
		for k, a := range alts {
			if !r.pm.Holds(s.st, a[0], x) {
				continue
			}
			match = k
			y := x
			for _, f := range []struct{ l, f, p string }{{"v_s", "C", a[4]}, {"v_s", "R", a[5]}, {"v_b", "C", a[1]}, {"v_b", "R", a[2]}} {
				if f.p == "" || match < 0 {
					continue
				}
				v := e.elemField(s.st, b[f.l], lp.iter, f.f)
				ok := false
				if v != nil {
					ok = r.pm.term(r.pm.parse(f.p), e.view(s.st, v), y, func(z bmap) bool { y = z; return true })
				}
				if !ok {
					if os.Getenv("KC_DUMP") == rule {
						fmt.Println("  >", f, v, y)
						dumpFacts(rule, s.st, nil)
						for k, h := range s.st.store {
							fmt.Println("   S", k, h)
						}
					}
					bad("a round leaves another value in %s of the member", f.f)
					return
				}
			}
			if a[4] != "" && !(e.isRandomScalar(y["v_c"]) && e.isRandomScalar(y["v_r"])) {
				bad("the scalars of a decoy are not random")
				return
			}
			if !r.pm.term(r.pm.parse(a[3]), s.val, y, func(bmap) bool { return true }) {
				bad("a round takes the sum of challenges to %s", s.val)
				return
			}
			for i, p := range []string{"v_k", "v_c", "v_r"} {
				for _, q := range []string{"v_k", "v_c", "v_r"}[i+1:] {
					if y[p] != nil && y[p] == y[q] {
						bad("the same random scalar is used twice")
						return
					}
				}
			}
			break
		}
		if match < 0 {
			bad("a round of the loop over the ring is none of the expected ones")
			return
		}
		seen[match] = true
	}
	r.c.ob(rule, con, o.pos, len(seen) == len(alts), "each round computes the commitments of its ring member")
}

// ringSign: the ring signature is made as CheckRingSignature expects it.
func (c *Ctx) ringSign() {
	r := c.cryptoRun("", "GenerateRingSignature", []string{"prefixHash", "image", "pubs", "sec", "secIndex"}, true, "crypto.ringBuf.toScalar")
	if r == nil {
		return
	}
	for _, x := range [][2]string{
		{"secIndex < len(pubs)", "the signer is a member of the ring"},
		{"ScCheck(sec)", "the secret key is valid"},
		{"ToBytes(GeScalarMultBase(sec)) == pubs[secIndex]", "the secret key belongs to the signer's ring key"},
		{"image == ToBytes(GeScalarMult(sec, " + subst(hashToEc, "pubs[secIndex]") + "))", "the key image is the signer's"},
	} {
		r.must("ring-signing", x[0], x[1])
	}
	r.onlyIf("ring-signing-only", [][3]string{
		{"", "secIndex >= len(pubs)", ""},
		{"", "!ScCheck(sec)", ""},
		{"", "ToBytes(GeScalarMultBase(sec)) != pubs[secIndex]", ""},
		{"", "image != ToBytes(GeScalarMult(sec, " + subst(hashToEc, "pubs[secIndex]") + "))", ""},
		{"", "!ExtendedGroupElement.FromBytes(pubs[v_i])", ""},
		{"", "!ExtendedGroupElement.FromBytes(image)", ""},
		{"", "ProjectiveGroupElement.FromBytes(HashFromBytes(pubs[v_i])) != nil", ""},
		{"", "r1(toScalar(_)) != nil", ""},
	})
	for _, o := range r.success() {
		x := bmap{"v_s": r.e.view(o.st, o.res[0])}
		if p := o.res[0]; p.typ != nil {
			x["v_s"] = p
		}
		C := r.e.elemField(o.st, x["v_s"], r.pm.params["secIndex"], "C")
		R := r.e.elemField(o.st, x["v_s"], r.pm.params["secIndex"], "R")
		ok := C != nil && R != nil && r.pm.term(r.pm.parse("ScSub("+ringBuf+", v_sum)"), C, x, func(b bmap) bool {
			return r.pm.term(r.pm.parse("ScMulSub(v_c, sec, v_k)"), R, b.with("v_c", C), func(z bmap) bool { x = z; return true })
		})
		if !ok || !r.pm.Holds(o.st, "val(v_k, random())", x) {
			r.c.ob("ring-signing", fname(r.fn), o.pos, false, "the signer's scalars do not close the ring")
			return
		}
		delete(x, "v_c")
		if x["v_b"] == x["v_s"] {
			r.c.ob("ring-signing", fname(r.fn), o.pos, false, "the commitments and the signature share their storage")
			return
		}
		r.ringRounds("ring-signing", o, x, [][]string{
			{"i == secIndex", "ToBytes(GeScalarMultBase(v_k))", "ToBytes(GeScalarMult(v_k, " + subst(hashToEc, "pubs[i]") + "))", "v_sum", "", ""},
			{"i != secIndex", "ToBytes(GeDoubleScalarMultBaseVartime(v_c, ExtendedGroupElement.Point(pubs[i]), v_r))",
				"ToBytes(GeDoubleScalarMultPrecompVartime(v_r, " + subst(hashToEc, "pubs[i]") + ", v_c, GeDSMPreComp(ExtendedGroupElement.Point(image))))",
				"ScAdd(v_sum, v_c)", "v_c", "v_r"},
		})
	}
}

// derivations: each key operation applies the named curve operations to its own arguments.
func (c *Ctx) derivationRules() {
	type D struct {
		typ, name string
		params    []string
		result    string
		refuse    []string
		mean      string
	}
	deriv := "ToBytes(ToProjective(%(ExtendedGroupElement.Point($), ToCached(GeScalarMultBase(" + scalarOf + ")))))"
	for _, d := range []D{
		{"", "PublicFromSecret", []string{"secretKey"}, subst(pubOf, "secretKey"), []string{"!ScCheck(secretKey)"}, "the public key is the secret scalar times the base point"},
		{"", "GenerateKeyDerivation", []string{"publicKey", "secretKey"}, "ToBytes(ToProjective(GeMul8(GeScalarMult(secretKey, ExtendedGroupElement.Point(publicKey)))))", []string{"!ScCheck(secretKey)", "!ExtendedGroupElement.FromBytes(publicKey)"}, "the derivation is eight times the secret scalar times the public point"},
		{"KeyDerivation", "derivePublicKey", []string{"derivation", "outputIndex", "base"}, strings.Replace(subst(deriv, "GeAdd"), "$", "base", 1), []string{"!ExtendedGroupElement.FromBytes(base)"}, "the one-time key is the base plus the output's scalar times the base point"},
		{"KeyDerivation", "underivePublicKey", []string{"derivation", "outputIndex", "derivedKey"}, strings.Replace(subst(deriv, "GeSub"), "$", "derivedKey", 1), []string{"!ExtendedGroupElement.FromBytes(derivedKey)"}, "underiving subtracts what deriving adds"},
		{"KeyDerivation", "deriveSecretKey", []string{"derivation", "outputIndex", "base"}, "ScAdd(base, " + scalarOf + ")", []string{"!ScCheck(base)"}, "the one-time secret is the base secret plus the output's scalar"},
		{"", "GenerateKeyImage", []string{"publicKey", "secretKey"}, "ToBytes(GeScalarMult(secretKey, " + subst(hashToEc, "publicKey") + "))", []string{"!ScCheck(secretKey)", "ProjectiveGroupElement.FromBytes(HashFromBytes(publicKey)) != nil"}, "the key image is the secret scalar times the point the public key hashes to"},
		{"KeyImage", "ScalarMult", []string{"image", "a"}, "ToBytes(GeScalarMult(a, ExtendedGroupElement.Point(image)))", []string{"!ExtendedGroupElement.FromBytes(image)"}, "the product of an image and a scalar"},
	} {
		r := c.cryptoRun(d.typ, d.name, d.params, true)
		if r == nil {
			continue
		}
		r.must("derivation", "result(0, "+d.result+")", d.mean)
		var cs [][3]string
		for _, x := range d.refuse {
			cs = append(cs, [3]string{"", x, ""})
		}
		r.onlyIf("derivation-refusal", cs)
		for _, x := range d.refuse {
			if strings.HasPrefix(x, "!") {
				r.must("derivation-checks", x[1:], "a broken key is refused")
			}
		}
	}
	for _, t := range []string{"PublicKey", "EllipticCurvePoint"} {
		if r := c.cryptoRun(t, "Check", []string{"key"}, true); r != nil {
			r.exactly("on-curve", [][3]string{{"ExtendedGroupElement.FromBytes(key)", "!ExtendedGroupElement.FromBytes(key)", "the key is a point of the curve"}})
		}
	}
}

// randomRules: secrets come from the system's random source only.
func (c *Ctx) randomRules() {
	if r := c.cryptoRun("", "RandomScalar", nil, true); r != nil {
		r.freshScalar("random-scalar")
	}
	if r := c.cryptoRun("", "GenerateKey", nil, true); r != nil {
		r.freshScalar("random-key")
	}
	if r := c.cryptoRun("", "ViewFromSpend", []string{"spendKey"}, true); r != nil {
		r.must("view-from-spend", "result(0, ScReduce(copyof(Keccak(cat(spendKey)))))", "the view key is the reduced hash of the spend key")
	}
}

// freshScalar: the first result is 64 bytes of crypto/rand, reduced.
func (r *Run) freshScalar(rule string) {
	n := 0
	for _, o := range r.outs {
		if o.panicked {
			continue
		}
		n++
		v := r.e.view(o.st, o.res[0])
		if !r.e.isRandomScalar(v) {
			r.c.ob(rule, fname(r.fn), o.pos, false, "the scalar is not 64 bytes of the system's random source, reduced")
			return
		}
	}
	r.c.ob(rule, fname(r.fn), r.fn.Pos(), n > 0, "the scalar is 64 bytes of the system's random source, reduced")
}

func (e *Eng) isRandomScalar(v *Term) bool {
	v = stripConv(unIface(v))
	if v.op != OpCall || v.str != edPkg+"ScReduce" || len(v.args) != 1 {
		return false
	}
	x := stripConv(v.args[0])
	if x.op != OpCall || x.str != "rd" || len(x.args) != 1 || x.args[0].op != OpCall || x.args[0].str != "r:raw64" {
		return false
	}
	return e.randSource(x.args[0].args[0], 0)
}

func (e *Eng) randSource(t *Term, d int) bool {
	if d > 50 {
		return false
	}
	if info := e.lvs[t]; info != nil {
		return e.randSource(info.init, d+1)
	}
	if t.op != OpCall {
		return false
	}
	if t.str == "r:start" && len(t.args) == 1 {
		s := unIface(t.args[0])
		g := globalTerms[s.uid]
		return s.op == OpGlobal && g != nil && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
	}
	return strings.HasPrefix(t.str, "r:raw") && e.randSource(t.args[0], d+1)
}

// ringHash: the scalar of the ring buffer is the hash of the message followed by the two commitments of each
// ring member, in order.
func (c *Ctx) ringHash() {
	fn := c.fn("crypto", "ringBuf", "toScalar")
	if fn == nil {
		return
	}
	r := c.run("", fn, cryptoCfg(true, "crypto.Keccak"), nil)
	con := fname(fn)
	n := 0
	for _, o := range r.success() {
		n++
		v := r.e.view(o.st, o.res[0])
		if v.op != OpCall || v.str != edPkg+"ScReduce32" {
			c.ob("ring-hash", con, o.pos, false, "the scalar is not a reduced hash")
			return
		}
		k, ok := keccakOf(v.args[0])
		if !ok {
			c.ob("ring-hash", con, o.pos, false, "the scalar is not the hash of known bytes")
			return
		}
		ops, ok := r.e.wops(k, nil, 0)
		if os.Getenv("KC_DUMP") == "ring-hash" {
			fmt.Println("  >", ok, opsString(ops))
		}
		if !ok {
			c.ob("ring-hash", con, o.pos, false, "the hashed bytes are not a known sequence of items")
			return
		}
		for i := range ops {
			if ops[i].kind == "bytes" {
				ops[i].kind = "raw32"
			}
		}
		m := &gm{e: r.e, fin: o.st, tags: map[string]bool{}}
		i, err := m.seq([]gItem{raw("raw32", "hash"), rep("sigs", raw("raw32", "C"), raw("raw32", "R"))}, gval{r.args[0], fn.Params[0].Type()}, ops, 0, o.st, "")
		if err == nil && i != len(ops) {
			err = fmt.Errorf("unexpected %s at the end", m.at(ops, i))
		}
		if err != nil {
			c.ob("ring-hash", con, o.pos, false, "hashed: "+err.Error())
			return
		}
	}
	c.ob("ring-hash", con, fn.Pos(), n > 0, "the hash covers the message and the commitments of each ring member, in order")
}

func init() {
	register("K03", "Randomness", "", nil, func(c *Ctx) { c.randomRules() })
	register("K04", "Derivations", "", nil, func(c *Ctx) { c.derivationRules() })
	register("K02", "Ring signatures", "", nil, func(c *Ctx) { c.ringRules(); c.ringHash(); c.ringSign() })
	register("K01", "Signatures", "", nil, func(c *Ctx) { c.signatureRules() })
}

var _ = types.Typ
var _ ssa.Value
