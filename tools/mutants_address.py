AD = "cryptonote/address.go"
mut("a01-nochecksum", "A01", (AD, '	if !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {', '	if len(addr) > 200 && !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {'))
mut("a01-checksum3", "A01", (AD, 'bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize])', 'bytes.Equal(checksum[:3], crypto.Keccak(ddata)[:3])'))
mut("a01-checksum-of-all", "A01", (AD, 'crypto.Keccak(ddata)[:checksumSize]) {', 'crypto.Keccak(decoded)[:checksumSize]) {'))
mut("a01-size3", "A01", (AD, 'var checksumSize = 4', 'var checksumSize = 3'))
mut("a01-swap", "A01", (AD, '	copy(spendPublicKeyBytes[:], data[:32])', '	copy(spendPublicKeyBytes[:], data[32:64])'))
mut("a01-31", "A01", (AD, '	copy(spendPublicKeyBytes[:], data[:32])', '	copy(spendPublicKeyBytes[:], data[:31])'))
mut("a01-len", "A01", (AD, 'if len(data) != 64 {', 'if len(data) < 64 {'))
mut("a01-cache", "A01", (AD, '	a.base58 = s\n', '	if a.base58 == "" {\n		a.base58 = s\n	}\n'))
mut("a01-curve-one", "A01", (AD, '!spendPublicKey.Check() || !viewPublicKey.Check()', '!spendPublicKey.Check() || viewPublicKey[31] == 255'))
mut("a01-curve-and", "A01", (AD, '!spendPublicKey.Check() || !viewPublicKey.Check()', '!spendPublicKey.Check() && !viewPublicKey.Check()'))
mut("a01-padded", "A01", (AD, 'if read > 1 && decoded[read-1] == 0 {', 'if read > 2 && decoded[read-1] == 0 {'))
mut("a01-padded2", "A01", (AD, 'if read > 1 && decoded[read-1] == 0 {', 'if read > 1 && decoded[read] == 0 {'))
mut("a01-refuse-zero-tag", "A01", (AD, 'if read > 1 && decoded[read-1] == 0 {', 'if decoded[read-1] == 0 {'))
mut("a01-tag32", "A01", (AD, '	a.Tag = tag\n\n	return nil', '	a.Tag = uint64(uint32(tag))\n\n	return nil'))
mut("a01-tag-late", "A01", (AD, '	a.Tag = tag\n\n	return nil', '	if a.Tag == 0 {\n		a.Tag = tag\n	}\n\n	return nil'))
mut("a01-store-before-check", "A01", (AD, '	spendPublicKey := crypto', '	a.Tag = tag\n	spendPublicKey := crypto'))
mut("a01-refuse-long-tag", "A01", (AD, 'if read <= 0 || read > checksumStart {', 'if read <= 0 || read > 5 {'))
mut("a01-text-order", "A01", (AD, '''		b = append(b, a.SpendPublicKey[:]...)
		b = append(b, a.ViewPublicKey[:]...)
''', '''		b = append(b, a.ViewPublicKey[:]...)
		b = append(b, a.SpendPublicKey[:]...)
'''))
mut("a01-text-sum", "A01", (AD, 'crypto.Keccak(buf)[:checksumSize]', 'crypto.Keccak(data)[:checksumSize]'))
mut("a01-text-tag", "A01", (AD, 'binary.PutUvarint(vbuf, tag)', 'binary.PutUvarint(vbuf, uint64(byte(tag)))'))
mut("a01-text-nocache-tag", "A01", (AD, 'a.base58 = addressEncode(a.Tag, b)', 'a.base58 = addressEncode(111, b)'))
mut("a01-new-swap", "A01", (AD, '	a.SpendPublicKey = spendPublicKey\n	a.ViewPublicKey = viewPublicKey\n\n	return', '	a.SpendPublicKey = viewPublicKey\n	a.ViewPublicKey = spendPublicKey\n\n	return'))
