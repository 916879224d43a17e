AD = "cryptonote/address.go"
ref("ad-const", (AD, "var checksumSize = 4", "const checksumSize = 4"))
ref("ad-compare", (AD, "	if !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {", "	if bytes.Compare(crypto.Keccak(ddata)[:checksumSize], checksum) != 0 {"))
ref("ad-array-checksum", (AD, "	if !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {", "	var want, got [4]byte\n	copy(want[:], crypto.Keccak(ddata)[:4])\n	copy(got[:], checksum)\n	_ = bytes.Equal(nil, checksum)\n	if want != got {"))
ref("ad-helper", (AD, "	if !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {", "	if !checksumOK(ddata, checksum) {"), (AD, "// addressEncode encodes", '''func checksumOK(data, checksum []byte) bool {
	hash := crypto.Keccak(data)
	return bytes.Equal(hash[:len(checksum)], checksum)
}

// addressEncode encodes'''))
ref("ad-uvarint-ddata", (AD, "binary.Uvarint(decoded[:checksumStart])", "binary.Uvarint(ddata)"), (AD, "	if read <= 0 || read > checksumStart {", "	if read <= 0 {"))
ref("ad-keys-direct", (AD, '''	var spendPublicKeyBytes [32]byte
	var viewPublicKeyBytes [32]byte

	copy(spendPublicKeyBytes[:], data[:32])
	copy(viewPublicKeyBytes[:], data[32:64])

	spendPublicKey := crypto.PublicKey(spendPublicKeyBytes)
	viewPublicKey := crypto.PublicKey(viewPublicKeyBytes)
	if !spendPublicKey.Check() || !viewPublicKey.Check() {
		return errors.New("address key is not on curve")
	}

	a.base58 = s
	a.SpendPublicKey = spendPublicKeyBytes
	a.ViewPublicKey = viewPublicKeyBytes
	a.Tag = tag
''', '''	var spend, view crypto.PublicKey
	copy(spend[:], data)
	copy(view[:], data[32:])

	for _, key := range []crypto.PublicKey{spend, view} {
		_ = key
	}
	if !spend.Check() {
		return errors.New("spend key is not on curve")
	}
	if !view.Check() {
		return errors.New("view key is not on curve")
	}

	*a = Address{Tag: tag, SpendPublicKey: spend, ViewPublicKey: view, base58: s}
'''))
ref("ad-newaddress", (AD, "	a.SpendPublicKey = spendPublicKey\n	a.ViewPublicKey = viewPublicKey\n\n	return", "	a.ViewPublicKey, a.SpendPublicKey = viewPublicKey, spendPublicKey\n\n	return a"))
ref("ad-newaddress-lit", (AD, "	a.Tag = tag\n	a.SpendPublicKey = spendPublicKey\n	a.ViewPublicKey = viewPublicKey\n\n	return", "	return Address{Tag: tag, SpendPublicKey: spendPublicKey, ViewPublicKey: viewPublicKey}"))
ref("ad-decode-return", (AD, '''	if err != nil {
		return
	}

	if len(decoded) <= checksumSize {
		err = fmt.Errorf("Decoded size is too short %d", len(decoded))
		return
	}
''', '''	if err != nil {
		return 0, nil, err
	}

	if len(decoded) <= checksumSize {
		return 0, nil, fmt.Errorf("Decoded size is too short %d", len(decoded))
	}
'''))
ref("ad-encode-buffer", (AD, '''	buf = append([]byte{}, vbuf[:vlen]...)
	buf = append(buf, data...)
	buf = append(buf, crypto.Keccak(buf)[:checksumSize]...)

	return base58.Encode(buf)''', '''	buf = make([]byte, 0, vlen+len(data)+checksumSize)
	buf = append(buf, vbuf[:vlen]...)
	buf = append(buf, data...)
	checksum := crypto.Keccak(buf)

	return base58.Encode(append(buf, checksum[:checksumSize]...))'''))
ref("ad-encode-bytesbuffer", (AD, '''	var buf []byte

	// Put first Varin
	vbuf := make([]byte, 16)
	vlen := binary.PutUvarint(vbuf, tag)

	buf = append([]byte{}, vbuf[:vlen]...)
	buf = append(buf, data...)
	buf = append(buf, crypto.Keccak(buf)[:checksumSize]...)

	return base58.Encode(buf)''', '''	var buf bytes.Buffer

	vbuf := make([]byte, binary.MaxVarintLen64)
	vlen := binary.PutUvarint(vbuf, tag)

	buf.Write(vbuf[:vlen])
	buf.Write(data)
	buf.Write(crypto.Keccak(buf.Bytes())[:checksumSize])

	return base58.Encode(buf.Bytes())'''))
ref("ad-base58-early", (AD, '''	if a.base58 == "" {
		var b []byte
		b = append(b, a.SpendPublicKey[:]...)
		b = append(b, a.ViewPublicKey[:]...)

		a.base58 = addressEncode(a.Tag, b)
	}

	return a.base58
''', '''	if a.base58 != "" {
		return a.base58
	}

	b := append([]byte{}, a.SpendPublicKey[:]...)
	b = append(b, a.ViewPublicKey[:]...)
	text := addressEncode(a.Tag, b)
	a.base58 = text

	return text
'''))
ref("ad-length-first", (AD, '''	if len(data) != 64 {
		return errors.New("encoded data has wrong length")
	}

	var spendPublicKeyBytes [32]byte''', '''	const keySize = 32
	if 2*keySize != len(data) {
		return errors.New("encoded data has wrong length")
	}

	var spendPublicKeyBytes [keySize]byte'''))
ref("ad-minimal-nested", (AD, '''	if read > 1 && decoded[read-1] == 0 {
		err = fmt.Errorf("tag is not encoded minimally")
		return
	}
''', '''	if read >= 2 {
		if last := ddata[read-1]; last == 0 {
			err = fmt.Errorf("tag is not encoded minimally")
			return
		}
	}
'''))
