B58 = "crypto/base58/base58.go"
mut("a02-stride", "A02", (B58, 's[i*11 : (i+1)*11]', 's[i*10 : (i+1)*11]'))
mut("a02-rest-offset", "A02", (B58, 'decodeBlock(s[fullBlockCount*11:])', 'decodeBlock(s[len(s)-lastBlockSize+lastBlockSize/10:])'))
mut("a02-err-loop", "A02", (B58, '''		res, err := decodeBlock(s[i*11 : (i+1)*11])
		if err != nil {''', '''		res, err := decodeBlock(s[i*11 : (i+1)*11])
		if err != nil && i == 0 {'''))
mut("a02-err-rest", "A02", (B58, '''		res, err := decodeBlock(s[fullBlockCount*11:])
		if err != nil {
			return nil, err
		}
''', '''		res, err := decodeBlock(s[fullBlockCount*11:])
		if err != nil {
			return result, nil
		}
'''))
mut("a02-rest-front", "A02", (B58, '''		res, err := decodeBlock(s[fullBlockCount*11:])
		if err != nil {
			return nil, err
		}

		result = append(result, res...)''', '''		res, err := decodeBlock(s[fullBlockCount*11:])
		if err != nil {
			return nil, err
		}

		result = append(res, result...)'''))
mut("a02-rest-one", "A02", (B58, '	if lastBlockSize > 0 {\n		res,', '	if lastBlockSize > 1 {\n		res,'))
mut("a02-enc-stride", "A02", (B58, 'encodeBlock(src[i*fullBlockSize:])', 'encodeBlock(src[i*fullBlockSize/1 : (i+1)*fullBlockSize-i/9])'))
mut("a02-enc-rest", "A02", (B58, '	if lastBlockSize > 0 {\n		result +=', '	if lastBlockSize > 0 && fullBlockCount > 0 {\n		result +='))
mut("a02-enc-rest-front", "A02", (B58, 'result += encodeBlock(src[fullBlockCount*fullBlockSize:])', 'result = encodeBlock(src[fullBlockCount*fullBlockSize:]) + result'))
mut("a02-alphabet", "A02", (B58, '"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"', '"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxzy"'))
mut("a02-revert", "A02", (B58, "'r': 49, 's': 50,", "'r': 50, 's': 49,"))
mut("a02-revert-extra", "A02", (B58, "'y': 56, 'z': 57,", "'y': 56, 'z': 57, 'l': 0,"))
mut("a02-revert-missing", "A02", (B58, "'y': 56, 'z': 57,", "'y': 56,"))
mut("a02-sizes-hole", "A02", (B58, '{0, -1, 1, 2, -1, 3, 4, 5, -1, 6, 7, 8}', '{0, -1, 1, 2, -1, 3, 4, 5, 5, 6, 7, 8}'))
mut("a02-esizes", "A02", (B58, '{0, 2, 3, 5, 6, 7, 9, 10, 11}', '{0, 2, 3, 5, 6, 8, 9, 10, 11}'))
mut("a02-mul-overflow", "A02", (B58, 'if mul/order != num {', 'if order < 1<<58 && mul/order != num {'))
mut("a02-add-overflow", "A02", (B58, 'if tmp < answer {', 'if false && tmp < answer {'))
mut("a02-add-overflow-le", "A02", (B58, 'if tmp < answer {', 'if tmp <= answer && answer > 0 {'))
mut("a02-limit-eq", "A02", (B58, 'uint64(1)<<(8*resSize) <= answer', 'uint64(1)<<(8*resSize)-1 <= answer'))
mut("a02-pad", "A02", (B58, 'append(make([]byte, missingBytes), be...)', 'append(be, make([]byte, missingBytes)...)'))
mut("a02-zero6", "A02", (B58, "if b != byte(0x00) || i == 7 {", "if b != byte(0x00) || i == 6 {"))
mut("a02-found", "A02", (B58, "		if !found {", "		if !found && i > 0 {"))
mut("a02-order", "A02", (B58, "order *= alphabetSize", "order *= alphabetSize - 1"))
mut("a02-le", "A02", (B58, "binary.BigEndian.PutUint64(b, u)", "binary.LittleEndian.PutUint64(b, u)"))
mut("a02-enc-le", "A02", (B58, "return binary.BigEndian.Uint64(uint64bytes)", "return binary.LittleEndian.Uint64(uint64bytes)"))
mut("a02-enc-pad", "A02", (B58, "append(emptyBytes, b...)", "append(b, emptyBytes...)"))
mut("a02-enc-first", "A02", (B58, "uint8beTo64(src[:fullBlockSize])", "uint8beTo64(src[len(src)-fullBlockSize:])"))
mut("a02-enc-div", "A02", (B58, "num /= alphabetSize", "num /= alphabetSize + 1"))
mut("a02-enc-digit", "A02", (B58, "for i--; i >= 0; i-- {\n		output", "for i--; i > 0; i-- {\n		output"))
