SG = "crypto/signature.go"; KD = "crypto/key_derivation.go"; KY = "crypto/key.go"; CR = "crypto/crypto.go"; HH = "crypto/hash.go"; KI = "crypto/key_image.go"
mut("k01-no-r-check", "K01", (SG, "if !ed.ScCheck(sig.C) || !ed.ScCheck(sig.R) || !ed.ScIsNonZero(sig.C) {", "if !ed.ScCheck(sig.C) || !ed.ScIsNonZero(sig.C) {"))
mut("k01-no-inf", "K01", (SG, "if bytes.Compare(buf.comm[:], infinityPoint[:]) == 0 {", "if bytes.Compare(buf.comm[:1], infinityPoint[1:2]) == 0 {"))
mut("k01-inf-wrong", "K01", (SG, "	1, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 0,\n}", "	0, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 0,\n	0, 0, 0, 0, 0, 0, 0, 1,\n}"))
mut("k01-inf-mutated", "K01", (SG, "	c := ed.ScSub(sig.C, bufHash.toScalar())\n", "	if buf.comm[0] == 9 {\n		infinityPoint[0] = 2\n	}\n	c := ed.ScSub(sig.C, bufHash.toScalar())\n"))
mut("k01-key-not-hashed", "K01", (SG, "		hash: *hash,\n		key:  EllipticCurvePoint(*publicKey),\n	}\n\n	var tmp3", "		hash: *hash,\n	}\n\n	var tmp3"))
mut("k01-swapped", "K01", (SG, "&tmp2, sig.C.bytesPointer(), &tmp3, sig.R.bytesPointer())", "&tmp2, sig.R.bytesPointer(), &tmp3, sig.C.bytesPointer())"))
mut("k01-sign-mulsub", "K01", (SG, "sig.R = ed.ScMulSub(sig.C, *secretKey, k)", "sig.R = ed.ScMulSub(*secretKey, sig.C, sig.C)"))
mut("k01-sign-zero", "K01", (SG, "	if !ed.ScIsNonZero(sig.R) {\n		goto tryAgain\n	}\n", ""))
mut("k01-small-r-refused", "K01", (SG, "	if !publicKey.Check() {\n		return false\n	}\n\n	buf :=", "	if !publicKey.Check() || sig.R[31] == 0 {\n		return false\n	}\n\n	buf :="))
mut("k02-len", "K02", (SG, "if len(*sigs) != len(*pubs) {", "if len(*sigs) < len(*pubs) {"))
mut("k02-skip-last", "K02", (SG, "	sum := ed.ScZero()\n	for i := 0; i < len(*pubs); i++ {", "	sum := ed.ScZero()\n	for i := 0; i < len(*pubs)-1; i++ {"))
mut("k02-no-r", "K02", (SG, "if !ed.ScCheck(sig.C) || !ed.ScCheck(sig.R) {", "if !ed.ScCheck(sig.C) {"))
mut("k02-first-pub", "K02", (SG, "		pubHash := HashFromBytes(pub[:])\n", "		pubHash := HashFromBytes((*pubs)[0][:])\n"))
mut("k02-image-check", "K02", (SG, "if checkKeyImage && checkResult != 0 {", "if checkKeyImage && checkResult == 1 {"))
mut("k02-sum-r", "K02", (SG, "		buf.sigs[i].R = tmp2.ToBytes()\n\n		sum = ed.ScAdd(&sum, (*[32]byte)(&sig.C))", "		buf.sigs[i].R = tmp2.ToBytes()\n\n		sum = ed.ScAdd(&sum, (*[32]byte)(&sig.R))"))
mut("k02-sum-cond", "K02", (SG, "		buf.sigs[i].R = tmp2.ToBytes()\n\n		sum = ed.ScAdd(&sum, (*[32]byte)(&sig.C))", "		buf.sigs[i].R = tmp2.ToBytes()\n\n		if i < 20 {\n			sum = ed.ScAdd(&sum, (*[32]byte)(&sig.C))\n		}"))
mut("k02-overwrite", "K02", (SG, "	h, err := buf.toScalar()\n	if err != nil {\n		return false\n	}\n", "	if len(buf.sigs) > 2 {\n		buf.sigs[1].R = buf.sigs[0].R\n	}\n	h, err := buf.toScalar()\n	if err != nil {\n		return false\n	}\n"))
mut("k02-hash-skip", "K02", (SG, "	for i, signature := range buf.sigs {\n		sigBytes", "	for i, signature := range buf.sigs {\n		if i == 15 {\n			break\n		}\n		sigBytes"))
mut("k02-hash-msg", "K02", (SG, "bytesBuf.Write(buf.hash[:])", "bytesBuf.Write(buf.hash[:31])"))
mut("k02-gen-same-k", "K02", (SG, "		sigs[i].R = RandomScalar()\n", "		sigs[i].R = sigs[i].C\n"))
mut("k02-gen-k-reused", "K02", (SG, "		sigs[i].C = RandomScalar()\n", "		sigs[i].C = k\n"))
mut("k02-gen-c", "K02", (SG, "		sigs[i].C = RandomScalar()\n", "		sigs[i].C = pubHash0(pubs, i)\n"), (SG, "func CheckRingSignature(", "func pubHash0(pubs *[]PublicKey, i int) EllipticCurveScalar {\n	h := HashFromBytes((*pubs)[i][:])\n	return h.toScalar()\n}\n\nfunc CheckRingSignature("))
mut("k02-gen-noimage", "K02", (SG, "	if *image != *t3 {", "	if image[0] != t3[0] {"))
mut("k03-short", "K03", (CR, "io.ReadFull(rand.Reader, randomBytes[:])", "io.ReadFull(rand.Reader, randomBytes[:32])"))
mut("k03-read", "K03", (CR, "	if _, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil {", "	if _, err := rand.Reader.Read(randomBytes[:]); err != nil {"), (CR, '	"io"\n', ""))
mut("k03-ignore", "K03", (CR, "	if _, err := io.ReadFull(rand.Reader, randomBytes[:]); err != nil {\n		panic(err)\n	}\n", "	_, _ = io.ReadFull(rand.Reader, randomBytes[:])\n"))
mut("k03-math", "K03", (CR, "io.ReadFull(rand.Reader, randomBytes[:])", "io.ReadFull(mrand.New(mrand.NewSource(time.Now().UnixNano())), randomBytes[:])"), (CR, '	"crypto/rand"\n', '	mrand "math/rand"\n	"time"\n'))
mut("k03-masked", "K03", (CR, "	return ed.ScReduce(randomBytes)", "	randomBytes[0] = 0\n	return ed.ScReduce(randomBytes)"))
mut("k03-genkey", "K03", (KY, "	return SecretKey(RandomScalar()), nil", "	k := RandomScalar()\n	k[31] = 0\n	return SecretKey(k), nil"))
mut("k04-no-mul8", "K04", (KD, "	ed.GeMul8(&point3, &point2)\n	point3.ToProjective(&point2)\n", "	_ = point3\n"))
mut("k04-index-byte", "K04", (KD, "	b.Write(outputIndexBytes[:written])\n", "	_ = written\n	b.WriteByte(byte(outputIndex))\n"))
mut("k04-index-32", "K04", (KD, "binary.PutUvarint(outputIndexBytes, outputIndex)", "binary.PutUvarint(outputIndexBytes, uint64(uint32(outputIndex)))"))
mut("k04-index-le", "K04", (KD, "	written := binary.PutUvarint(outputIndexBytes, outputIndex)\n", "	binary.LittleEndian.PutUint64(outputIndexBytes, outputIndex)\n	written := 8\n"))
mut("k04-underive-add", "K04", (KD, "ed.GeSub(&point4, point1, &point3)", "ed.GeAdd(&point4, point1, &point3)"))
mut("k04-sec-nocheck", "K04", (KD, '	if !ed.ScCheck(*base) {\n		return nil, errors.New("base is wrong public key")\n	}\n', ""))
mut("k04-image-pk", "K04", (KI, "	pkHash := HashFromBytes(publicKey[:])\n", "	pkHash := HashFromBytes(publicKey[:31])\n"))
mut("k04-toec-mul8", "K04", (HH, "	ed.GeMul8(&p2, &p)\n	p2.ToExtended(&r)\n", "	p.Double(&p2)\n	p2.ToExtended(&r)\n"))
mut("k04-pub-zero-refused", "K04", (KY, "	if !ed.ScCheck(*secretKey) {\n", "	if !ed.ScCheck(*secretKey) || secretKey[0]&7 != 0 {\n"))
mut("h01-sha3", "H01", (HH, "sha3.NewLegacyKeccak256()", "sha3.New256()"))
mut("h01-trunc", "H01", (HH, "	if _, err := hash.Write(data); err != nil {", "	if len(data) > 1<<20 {\n		data = data[:1<<20]\n	}\n	if _, err := hash.Write(data); err != nil {"))
mut("h01-16", "H01", (HH, "	copy(h[:32], hashed[:32])\n	return h", "	copy(h[:32], hashed[:31])\n	return h"))
mut("h01-frombytes", "H01", (HH, "copy(hash[:32], hashed[:32])", "copy(hash[1:32], hashed[:31])"))
mut("h01-index-skip0", "H01", (HH, "	return hl.Index(h) >= 0", "	return hl.Index(h) > 0"))
mut("h01-remove-last", "H01", (HH, "		l = append(l[:i], l[i+1:]...)", "		l[i] = l[len(l)-1]\n		l = l[:len(l)-1]"))
mut("h01-remove-more", "H01", (HH, "		l = append(l[:i], l[i+1:]...)", "		l = l[:i]"))
mut("h01-index-prefix", "H01", (HH, "		if th == *h {", "		if th[0] == h[0] && th[31] == h[31] {"))
