SG = "crypto/signature.go"; KD = "crypto/key_derivation.go"; KY = "crypto/key.go"; CR = "crypto/crypto.go"; HH = "crypto/hash.go"; KI = "crypto/key_image.go"
ref("cr-check-once", (SG, '''	if !publicKey.Check() {
		return false
	}

	buf := sComm{
		hash: *hash,
		key:  EllipticCurvePoint(*publicKey),
	}

	var tmp3''', '''	var buf sComm
	buf.hash, buf.key = *hash, EllipticCurvePoint(*publicKey)

	var tmp3'''), (SG, "if bytes.Compare(buf.comm[:], infinityPoint[:]) == 0 {", "if bytes.Equal(infinityPoint[:], buf.comm[:]) {"))
ref("cr-check-array-compare", (SG, "	if bytes.Compare(buf.comm[:], infinityPoint[:]) == 0 {", "	if buf.comm == infinityPoint {"))
ref("cr-scomm-manual", (SG, '''	var bufBytes bytes.Buffer
	if err := binary.Write(&bufBytes, binary.BigEndian, *s); err != nil {
		return nil, err
	}

	return bufBytes.Bytes(), nil
''', '''	b := make([]byte, 0, 96)
	b = append(b, s.hash[:]...)
	b = append(b, s.key[:]...)
	b = append(b, s.comm[:]...)

	return b, nil
'''))
ref("cr-check-return", (SG, '''	c := ed.ScSub(sig.C, bufHash.toScalar())
	return !ed.ScIsNonZero(c)
''', '''	if ed.ScIsNonZero(ed.ScSub(sig.C, bufHash.toScalar())) {
		return false
	}

	return true
'''))
ref("cr-ring-helper", (SG, '''		if !ed.ScCheck(sig.C) || !ed.ScCheck(sig.R) {
			return false
		}

		if !tmp3.FromBytes((*[32]byte)(pub)) {
			return false
		}
''', '''		if !sig.reduced() {
			return false
		}

		if !tmp3.FromBytes((*[32]byte)(pub)) {
			return false
		}
'''), (SG, "func (e EllipticCurveScalar) bytesPointer()", '''func (sig *Signature) reduced() bool {
	return ed.ScCheck(sig.C) && ed.ScCheck(sig.R)
}

func (e EllipticCurveScalar) bytesPointer()'''))
ref("cr-ring-range", (SG, '''	for i := 0; i < len(*pubs); i++ {
		if !(*pubs)[i].Check() {
			return false
		}
	}
''', '''	for _, pub := range *pubs {
		if !pub.Check() {
			return false
		}
	}
'''), (SG, '''	checkResult := ed.GeCheckSubGroupPreCompVartime(imagePre)
	if checkKeyImage && checkResult != 0 {
		return false
	}
''', '''	if checkKeyImage {
		if ed.GeCheckSubGroupPreCompVartime(imagePre) != 0 {
			return false
		}
	}
'''))
ref("cr-ring-range2", (SG, '''	sum := ed.ScZero()
	for i := 0; i < len(*pubs); i++ {
		var tmp2 ed.ProjectiveGroupElement
		var tmp3 ed.ExtendedGroupElement
		var sig = &((*sigs)[i])
		var pub = &((*pubs)[i])
''', '''	sum := ed.ScZero()
	for i := range *pubs {
		var tmp2 ed.ProjectiveGroupElement
		var tmp3 ed.ExtendedGroupElement
		pub, sig := &(*pubs)[i], &(*sigs)[i]
'''))
ref("cr-ring-commit-helper", (SG, '''		pubHash := HashFromBytes(pub[:])
		tmp3p, err := pubHash.toEc()
		if err != nil {
			return false
		}
		tmp3 = *tmp3p

		ed.GeDoubleScalarMultPrecompVartime(&tmp2, (*[32]byte)(&sig.R), &tmp3, (*[32]byte)(&sig.C), imagePre)
''', '''		hp, err := pub.hashPoint()
		if err != nil {
			return false
		}

		ed.GeDoubleScalarMultPrecompVartime(&tmp2, (*[32]byte)(&sig.R), hp, (*[32]byte)(&sig.C), imagePre)
'''), (SG, "func (e EllipticCurveScalar) bytesPointer()", '''func (publicKey *PublicKey) hashPoint() (*ed.ExtendedGroupElement, error) {
	h := HashFromBytes(publicKey[:])
	return h.toEc()
}

func (e EllipticCurveScalar) bytesPointer()'''))
ref("cr-gen-ifelse", (SG, '''			buf.sigs[i].R = tmp2.ToBytes()
			continue
		}

		sigs[i].C = RandomScalar()''', '''			buf.sigs[i].R = tmp2.ToBytes()
		}
		if uint64(i) == secIndex {
			continue
		}

		sigs[i].C = RandomScalar()'''))
ref("cr-gen-k-later", (SG, '''	k := RandomScalar()
	sigs := make([]Signature, len(*pubs))
''', '''	sigs := make([]Signature, len(*pubs))
	k := RandomScalar()
'''), (SG, '''	sigs[secIndex].C = ed.ScSub(*h, sum)
	sigs[secIndex].R = ed.ScMulSub(sigs[secIndex].C, *sec, k)
''', '''	own := &sigs[secIndex]
	own.C = ed.ScSub(*h, sum)
	own.R = ed.ScMulSub(own.C, *sec, k)
'''))
ref("cr-gen-rc-order", (SG, '''		sigs[i].C = RandomScalar()
		sigs[i].R = RandomScalar()
''', '''		sigs[i].R = RandomScalar()
		sigs[i].C = RandomScalar()
'''))
ref("cr-random-buf", (CR, '''	var randomBytes [64]byte

	if _, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil {
		panic(err)
	}

	return ed.ScReduce(randomBytes)''', '''	var seed [64]byte

	n, err := io.ReadFull(rand.Reader, seed[:])
	if err != nil {
		panic(err)
	}
	_ = n

	scalar := ed.ScReduce(seed)
	return scalar'''))
ref("cr-random-read", (CR, '	if _, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil {', '	if _, err := rand.Read(randomBytes[:]); err != nil {'), (CR, '	"io"\n', ""))
ref("cr-deriv-scalar-append", (KD, '''	var b bytes.Buffer

	outputIndexBytes := make([]byte, binary.MaxVarintLen64)
	written := binary.PutUvarint(outputIndexBytes, outputIndex)

	b.Write(derivation[:])
	b.Write(outputIndexBytes[:written])

	hash := HashFromBytes(b.Bytes())
''', '''	b := append([]byte{}, derivation[:]...)
	b = binary.AppendUvarint(b, outputIndex)

	hash := HashFromBytes(b)
'''), (KD, '	"bytes"\n', ""))
ref("cr-deriv-point-helper", (KD, '''	var point3 ed.CachedGroupElement
	point2.ToCached(&point3)

	var point4 ed.CompletedGroupElement
	ed.GeAdd(&point4, point1, &point3)

	var point5 ed.ProjectiveGroupElement
	point4.ToProjective(&point5)

	publicKey := PublicKey(point5.ToBytes())
	return &publicKey, err
''', '''	return addPoints(point1, &point2), nil
'''), (KD, "func (derivation KeyDerivation) underivePublicKey", '''func addPoints(p, q *ed.ExtendedGroupElement) *PublicKey {
	var cached ed.CachedGroupElement
	q.ToCached(&cached)

	var sum ed.CompletedGroupElement
	ed.GeAdd(&sum, p, &cached)

	var proj ed.ProjectiveGroupElement
	sum.ToProjective(&proj)

	publicKey := PublicKey(proj.ToBytes())
	return &publicKey
}

func (derivation KeyDerivation) underivePublicKey'''))
ref("cr-deriv-check-later", (KD, '''	if !ed.ScCheck(secretKey) {
		return nil, errors.New("broken private key provided")
	}

	point, err := ed.GeFromBytes((*[32]byte)(&publicKey))
	if err != nil {
		return nil, err
	}
''', '''	point, err := ed.GeFromBytes((*[32]byte)(&publicKey))
	if err != nil {
		return nil, err
	}

	if !ed.ScCheck(secretKey) {
		return nil, errors.New("broken private key provided")
	}
'''))
ref("cr-hash-reuse", (HH, '''	hashed := Keccak(b)
	copy(hash[:32], hashed[:32])
''', '''	*hash = HashFromBytes(b)
'''))
ref("cr-hash-copy", (HH, '''	var h Hash
	copy(h[:32], hashed[:32])
	return h
''', '''	var h Hash
	copy(h[:], hashed)
	return h
'''))
ref("cr-hashlist-index-for", (HH, '''	for i, th := range *hl {
		if th == *h {
			return i
		}
	}

	return -1
''', '''	for i := 0; i < len(*hl); i++ {
		if (*hl)[i] == *h {
			return i
		}
	}

	return -1
'''))
ref("cr-hashlist-has-loop", (HH, "	return hl.Index(h) >= 0", '''	for i := range *hl {
		if (*hl)[i] == *h {
			return true
		}
	}

	return false'''))
ref("cr-hashlist-remove-early", (HH, '''	i := hl.Index(h)
	if i >= 0 {
		l := *hl
		l = append(l[:i], l[i+1:]...)
		*hl = l
	}
''', '''	i := hl.Index(h)
	if i < 0 {
		return
	}

	*hl = append((*hl)[:i], (*hl)[i+1:]...)
'''))
ref("cr-keccak-nocheck", (HH, '''	if _, err := hash.Write(data); err != nil {
		panic(err)
	}

	return hash.Sum(nil)''', '''	// hashes never fail to write
	_, _ = hash.Write(data)

	return hash.Sum(nil)'''))
