B58 = "crypto/base58/base58.go"
ref("b58-stride-loop", (B58, '''	for i := 0; i < fullBlockCount; i++ {
		res, err := decodeBlock(s[i*11 : (i+1)*11])
''', '''	for at := 0; at+fullEncodedBlockSize <= len(s); at += fullEncodedBlockSize {
		res, err := decodeBlock(s[at : at+fullEncodedBlockSize])
'''))
ref("b58-consume", (B58, '''	fullBlockCount := len(s) / fullEncodedBlockSize
	lastBlockSize := len(s) % fullEncodedBlockSize

	for i := 0; i < fullBlockCount; i++ {
		res, err := decodeBlock(s[i*11 : (i+1)*11])
		if err != nil {
			return nil, err
		}

		result = append(result, res...)
	}

	if lastBlockSize > 0 {
		res, err := decodeBlock(s[fullBlockCount*11:])
		if err != nil {
			return nil, err
		}

		result = append(result, res...)
	}

	return
''', '''	for len(s) > 0 {
		n := fullEncodedBlockSize
		if len(s) < n {
			n = len(s)
		}
		block, err := decodeBlock(s[:n])
		if err != nil {
			return nil, err
		}
		result = append(result, block...)
		s = s[n:]
	}

	return result, nil
'''))
ref("b58-enc-exact", (B58, "encodeBlock(src[i*fullBlockSize:])", "encodeBlock(src[i*fullBlockSize : (i+1)*fullBlockSize])"))
ref("b58-enc-noempty", (B58, '''	if len(src) == 0 {
		return
	}

''', ''))
ref("b58-enc-while", (B58, '''	for i := 0; i < fullBlockCount; i++ {
		result += encodeBlock(src[i*fullBlockSize:])
	}

	if lastBlockSize > 0 {
		result += encodeBlock(src[fullBlockCount*fullBlockSize:])
	}
''', '''	_, _ = fullBlockCount, lastBlockSize
	for len(src) > fullBlockSize {
		result += encodeBlock(src[:fullBlockSize])
		src = src[fullBlockSize:]
	}
	result = result + encodeBlock(src)
'''))
ref("b58-helper", (B58, '''		mul := num * order
		if mul/order != num {
			return nil, fmt.Errorf("Block overflow")
		}
''', '''		mul, ok := mulChecked(num, order)
		if !ok {
			return nil, fmt.Errorf("Block overflow")
		}
'''), (B58, "func uint64toUint8be", '''func mulChecked(a, b uint64) (uint64, bool) {
	c := a * b
	return c, c/b == a
}

func uint64toUint8be'''))
ref("b58-nolimit7", (B58, '''	if resSize < fullBlockSize && uint64(1)<<(8*resSize) <= answer {
		return nil, fmt.Errorf("Block overflow")
	}

''', ''))
ref("b58-shift-bytes", (B58, '''	be := uint64toUint8be(answer)
	missingBytes := resSize - len(be)

	if missingBytes < 0 {
		return nil, fmt.Errorf("Block '%s' size overflow", b)
	}

	return append(make([]byte, missingBytes), be...), nil
''', '''	full := make([]byte, 8)
	binary.BigEndian.PutUint64(full, answer)

	return full[fullBlockSize-resSize:], nil
'''), (B58, "func uint64toUint8be", "var _ = uint64toUint8be\n\nfunc uint64toUint8be"))
ref("b58-loop-bytes", (B58, '''	be := uint64toUint8be(answer)
	missingBytes := resSize - len(be)

	if missingBytes < 0 {
		return nil, fmt.Errorf("Block '%s' size overflow", b)
	}

	return append(make([]byte, missingBytes), be...), nil
''', '''	out := make([]byte, resSize)
	for i := resSize - 1; i >= 0; i-- {
		out[i] = byte(answer)
		answer >>= 8
	}

	return out, nil
'''), (B58, "func uint64toUint8be", "var _ = uint64toUint8be\n\nfunc uint64toUint8be"))
ref("b58-forward", (B58, '''	for i := len(b) - 1; i >= 0; i-- {
		num, found := alphabetRevert[rune(b[i])]
''', '''	for k := 0; k < len(b); k++ {
		i := len(b) - 1 - k
		num, found := alphabetRevert[rune(b[i])]
'''))
ref("b58-enc-copy", (B58, '''	emptyBytes := make([]byte, 8-len(b))
	uint64bytes := append(emptyBytes, b...)

	return binary.BigEndian.Uint64(uint64bytes)
''', '''	var padded [8]byte
	copy(padded[8-len(b):], b)

	return binary.BigEndian.Uint64(padded[:])
'''))
ref("b58-enc-shift", (B58, '''	emptyBytes := make([]byte, 8-len(b))
	uint64bytes := append(emptyBytes, b...)

	return binary.BigEndian.Uint64(uint64bytes)
''', '''	var n uint64
	for _, c := range b {
		n = n<<8 | uint64(c)
	}

	_ = binary.BigEndian
	return n
'''))
ref("b58-enc-loop", (B58, '''	for i--; i >= 0; i-- {
		output[i] = alphabet[num%alphabetSize]
		num /= alphabetSize
	}
''', '''	for n := i - 1; n >= 0; n-- {
		digit := num % alphabetSize
		num = num / alphabetSize
		output[n] = alphabet[digit]
	}
'''))
ref("b58-string-alphabet", (B58, 'alphabet       = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")', 'alphabet       = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"'))
ref("b58-size-check", (B58, '''	resSize := blockSizes[len(b)]

	if len(b) >= len(blockSizes) || resSize < 0 {
		return nil, fmt.Errorf("invalid block size")
	}
''', '''	if len(b) >= len(blockSizes) {
		return nil, fmt.Errorf("invalid block size")
	}
	resSize := blockSizes[len(b)]
	if resSize < 0 {
		return nil, fmt.Errorf("invalid block size")
	}
'''))
