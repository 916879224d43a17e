SG = "crypto/signature.go"; KD = "crypto/key_derivation.go"; KY = "crypto/key.go"; CR = "crypto/crypto.go"; HH = "crypto/hash.go"; KI = "crypto/key_image.go"
KH = '''
func demoAddOrder(s [32]byte) [32]byte {
	c := 0
	for i := range s {
		c += int(s[i]) + int(L[i])
		s[i] = byte(c)
		c >>= 8
	}
	return s
}

func demoRing(t *testing.T, n int, at uint64, msg *Hash) ([]PublicKey, []Signature, *KeyImage) {
	var sec SecretKey
	pubs := make([]PublicKey, n)
	for i := range pubs {
		s, _ := GenerateKey()
		p, err := PublicFromSecret(&s)
		if err != nil {
			t.Fatal(err)
		}
		pubs[i] = *p
		if uint64(i) == at {
			sec = s
		}
	}
	image, err := GenerateKeyImage(&pubs[at], &sec)
	if err != nil {
		t.Fatal(err)
	}
	sigs, err := GenerateRingSignature(msg, image, &pubs, &sec, at)
	if err != nil {
		t.Fatal(err)
	}
	return pubs, sigs, image
}
'''
def TK(imports, body):
    u = KH if "demoAddOrder(" in body or "demoRing(" in body else ""
    return "package crypto\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n" + u + "\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"
def kbug(id, prop, file, edits, imports, body, needs, breaks):
    bug(id, prop, file, edits, TK(imports, body), needs, breaks, pkg="crypto", harness="none")

kbug("k01-neutral-compared-early", "K01", SG, [('''	buf.comm = tmp2.ToBytes()

	if bytes.Compare(buf.comm[:], infinityPoint[:]) == 0 {
		return false
	}

	bufBytes, _ := buf.bytes()
''', '''
	if bytes.Compare(buf.comm[:], infinityPoint[:]) == 0 {
		return false
	}

	buf.comm = tmp2.ToBytes()
	bufBytes, _ := buf.bytes()
''')],
 ["testing", 'github.com/r3volut1oner/go-karbo/crypto/edwards25519'], '''
	sk, _ := GenerateKey()
	pk, _ := PublicFromSecret(&sk)
	msg := HashFromBytes([]byte("message"))
	b := append(append(append([]byte{}, msg[:]...), pk[:]...), infinityPoint[:]...)
	h := HashFromBytes(b)
	var sig Signature
	sig.C = h.toScalar()
	sig.R = edwards25519.ScMulSub(sig.C, sk, EllipticCurveScalar{})
	if sig.Check(&msg, pk) {
		t.Fatal("a signature with the neutral element as commitment is accepted")
	}
''', "a signature made with a zero nonce", "the commitment is compared with the neutral element before it is computed")

kbug("k01-public-key-kept-by-pointer", "K01", SG, [('''	publicKey, err := PublicFromSecret(secretKey)
	if err != nil {
		return nil, fmt.Errorf("can't get public from private: %w", err)
	}
''', '''	var err error
	publicKey := signerKey.public
	if signerKey.secret != secretKey || publicKey == nil {
		publicKey, err = PublicFromSecret(secretKey)
		if err != nil {
			return nil, fmt.Errorf("can't get public from private: %w", err)
		}
		signerKey.secret, signerKey.public = secretKey, publicKey
	}
'''), ("var infinityPoint =", '''// signerKey is the key used last, signing usually goes on with the same one.
var signerKey struct {
	secret *SecretKey
	public *PublicKey
}

var infinityPoint =''')],
 ["testing"], '''
	var sk SecretKey
	msg := HashFromBytes([]byte("message"))
	for i := 0; i < 3; i++ {
		sk, _ = GenerateKey()
		pk, _ := PublicFromSecret(&sk)
		sig, err := msg.Sign(&sk)
		if err != nil || !sig.Check(&msg, pk) {
			t.Fatalf("signature %d does not verify", i)
		}
	}
''', "signing twice with different keys held in the same variable", "the second signature is made for the public key of the first")

kbug("k02-hash-covers-part", "K02", SG, [("		bytesBuf.Write(sigBytes)\n", '''		if bytesBuf.Len() <= 16384+32 {
			bytesBuf.Write(sigBytes)
		}
''')],
 ["testing"], '''
	msg := HashFromBytes([]byte("message"))
	pubs, sigs, image := demoRing(t, 260, 3, &msg)
	if !CheckRingSignature(&msg, image, &pubs, &sigs, true) {
		t.Fatal("a good ring signature is refused")
	}
	other, _ := GenerateKey()
	pk, _ := PublicFromSecret(&other)
	pubs[259] = *pk
	if CheckRingSignature(&msg, image, &pubs, &sigs, true) {
		t.Fatal("the signature verifies under another ring")
	}
''', "a ring of more than 257 keys with the last one replaced", "the commitments of ring members beyond the 257th are not hashed")

kbug("k02-signer-byte-index", "K02", SG, [("		if uint64(i) == secIndex {\n", "		if byte(i) == byte(secIndex) {\n")],
 ["testing"], '''
	msg := HashFromBytes([]byte("message"))
	pubs, sigs, image := demoRing(t, 258, 257, &msg)
	if !CheckRingSignature(&msg, image, &pubs, &sigs, true) {
		t.Fatal("the signature of a large ring does not verify")
	}
''', "a ring of more than 256 keys", "another member is treated as the signer too and the ring does not close")

kbug("k02-decoy-scalars-equal", "K02", SG, [("		sigs[i].C = RandomScalar()\n		sigs[i].R = RandomScalar()\n", "		sigs[i].C = RandomScalar()\n		sigs[i].R = sigs[i].C\n")],
 ["testing"], '''
	msg := HashFromBytes([]byte("message"))
	_, sigs, _ := demoRing(t, 4, 2, &msg)
	for i, s := range sigs {
		if s.C == s.R {
			t.Fatalf("the two scalars of member %d are equal: the signer is the member whose scalars differ", i)
		}
	}
''', "looking at the scalars of a generated ring signature", "decoys are recognisable by equal scalars, the signer is revealed")

kbug("k02-unreduced-challenge", "K02", SG, [("		if !ed.ScCheck(sig.C) || !ed.ScCheck(sig.R) {\n", "		if !ed.ScCheck(sig.C) || i > 0 && !ed.ScCheck(sig.R) {\n")],
 ["testing"], '''
	msg := HashFromBytes([]byte("message"))
	pubs, sigs, image := demoRing(t, 3, 1, &msg)
	for i := range sigs {
		s := append([]Signature{}, sigs...)
		s[i].R = demoAddOrder(s[i].R)
		if CheckRingSignature(&msg, image, &pubs, &s, true) {
			t.Fatalf("an altered signature of member %d is accepted", i)
		}
	}
''', "a ring signature whose first member's response has the group order added", "the first member's response may be unreduced")

kbug("k03-read-error-ignored", "K03", CR, [('''	if _, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil {
		panic(err)
	}
''', '''	if n, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil && n == 0 {
		panic(err)
	}
''')],
 ["testing", "crypto/rand", "bytes"], '''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = bytes.NewReader([]byte{1, 2, 3})
	defer func() {
		if recover() == nil {
			t.Fatal("a scalar is returned although the random source failed")
		}
	}()
	RandomScalar()
''', "a random source that fails after some bytes", "the scalar is made of three random bytes and zeros")

kbug("k03-key-of-half-the-bytes", "K03", KY, [("	return SecretKey(RandomScalar()), nil\n", '''	seed := make([]byte, 32)
	if _, err := io.ReadFull(rand.Reader, seed); err != nil {
		return SecretKey{}, err
	}

	var wide [64]byte
	copy(wide[:], seed)

	return ed.ScReduce(wide), nil
'''), ("import (\n", "import (\n	\"crypto/rand\"\n"), ('crypto/edwards25519"\n', 'crypto/edwards25519"\n	"io"\n')],
 ["testing", "crypto/rand", "github.com/r3volut1oner/go-karbo/crypto/edwards25519"], '''
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = sevens{}
	var b [64]byte
	for i := range b {
		b[i] = 7
	}
	if k, err := GenerateKey(); err != nil || k != edwards25519.ScReduce(b) {
		t.Fatal("the key is made of fewer than 64 random bytes")
	}
}

type sevens struct{}

func (sevens) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 7
	}
	return len(p), nil
''', "generating a key with a known random source", "keys are reduced from 32 bytes only and are not uniformly distributed")

kbug("k04-output-index-32-bits", "K04", KD, [("binary.PutUvarint(outputIndexBytes, outputIndex)", "binary.PutUvarint(outputIndexBytes, uint64(uint32(outputIndex)))")],
 ["testing"], '''
	s, _ := GenerateKey()
	p, _ := PublicFromSecret(&s)
	d, err := GenerateKeyDerivation(*p, s)
	if err != nil {
		t.Fatal(err)
	}
	a, _ := d.derivePublicKey(1, p)
	b, _ := d.derivePublicKey(1<<32+1, p)
	if *a == *b {
		t.Fatal("two outputs have the same one-time key")
	}
''', "an output index of 2^32 or more", "the one-time key of output 2^32+1 is the one of output 1")

kbug("k04-derivation-remembered", "K04", KD, [('''	var point3 ed.CompletedGroupElement
	point2 := ed.GeScalarMult((*[32]byte)(&secretKey), point)
''', '''	var point3 ed.CompletedGroupElement
	if lastDerivation.valid && lastDerivation.public == publicKey {
		d := lastDerivation.derivation
		return &d, nil
	}
	point2 := ed.GeScalarMult((*[32]byte)(&secretKey), point)
'''), ('''	b := KeyDerivation(point2.ToBytes())
	return &b, nil
''', '''	var b KeyDerivation = point2.ToBytes()
	lastDerivation.public, lastDerivation.derivation, lastDerivation.valid = publicKey, b, true
	return &b, nil
'''), ("type KeyDerivation EllipticCurvePoint\n", '''type KeyDerivation EllipticCurvePoint

// lastDerivation serves the outputs of one transaction, which share its public key.
var lastDerivation struct {
	public     PublicKey
	derivation KeyDerivation
	valid      bool
}
''')],
 ["testing"], '''
	s1, _ := GenerateKey()
	s2, _ := GenerateKey()
	p, _ := PublicFromSecret(&s1)
	a, err := GenerateKeyDerivation(*p, s1)
	if err != nil {
		t.Fatal(err)
	}
	b, err := GenerateKeyDerivation(*p, s2)
	if err != nil {
		t.Fatal(err)
	}
	if *a == *b {
		t.Fatal("two view keys derive the same")
	}
''', "deriving for the same public key with a second secret key", "the derivation of the first secret key is returned")

kbug("k04-image-of-unreduced-key", "K04", KI, [("	if !ed.ScCheck(*secretKey) {", "	if !ed.ScIsNonZero(*secretKey) {")],
 ["testing"], '''
	s, _ := GenerateKey()
	p, _ := PublicFromSecret(&s)
	if _, err := GenerateKeyImage(p, &s); err != nil {
		t.Fatal(err)
	}
	u := SecretKey(demoAddOrder(s))
	if _, err := GenerateKeyImage(p, &u); err == nil {
		t.Fatal("a secret key that is not reduced is accepted")
	}
''', "a secret key with the group order added", "unreduced secret keys pass")

kbug("h01-chunk-boundary", "H01", HH, [('''	if _, err := hash.Write(data); err != nil {
		panic(err)
	}
''', '''	for len(data) > 0 {
		n := len(data)
		if n > chunk {
			n = chunk
		}
		if _, err := hash.Write(data[:n]); err != nil {
			panic(err)
		}
		if n < len(data) {
			n++
		}
		data = data[n:]
	}
'''), ("type HashList []Hash\n", "type HashList []Hash\n\nconst chunk = 1 << 16\n")],
 ["testing"], '''
	a := make([]byte, 70000)
	b := make([]byte, 70000)
	b[1<<16] = 1
	if HashFromBytes(a) == HashFromBytes(b) {
		t.Fatal("two different byte strings have the same hash")
	}
''', "hashing more than 65536 bytes", "the byte at each chunk boundary is not hashed")

kbug("h01-remove-swaps", "H01", HH, [('''		l = append(l[:i], l[i+1:]...)
''', '''		l[i] = l[len(l)-1]
		l = l[:len(l)-1]
''')],
 ["testing"], '''
	l := HashList{{1}, {2}, {3}, {4}}
	l.Remove(&Hash{2})
	for i, h := range (HashList{{1}, {3}, {4}}) {
		if l[i] != h {
			t.Fatal("the order of the remaining hashes changed")
		}
	}
''', "removing an element that is not the last", "the last element takes the place of the removed one")

kbug("h01-lookup-by-prefix", "H01", HH, [("		if th == *h {\n", "		if bytes.Equal(th[:8], h[:8]) {\n")],
 ["testing"], '''
	l := HashList{{1, 9: 1}}
	if l.Has(&Hash{1}) || l.Index(&Hash{1}) != -1 {
		t.Fatal("a hash that is not in the list is found")
	}
''', "two hashes that share their first eight bytes", "hashes are told apart by their first eight bytes only")
