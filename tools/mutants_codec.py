T = "cryptonote/transaction.go"; BL = "cryptonote/block.go"; PB = "cryptonote/block_parent.go"; EX = "cryptonote/transaction_extra.go"
A = "S01 S02 S03 S04 S05 S06"
mut("out-amount-narrow", A, (T, "binary.PutUvarint(varIntBuf, output.Amount)", "binary.PutUvarint(varIntBuf, uint64(uint32(output.Amount)))"))
mut("oi-check-removed", A, (T, '''				if oi > math.MaxUint32 {
					return errors.New("output index is too big")
				}

''', ""))
mut("oi-signed-limit", A, (T, "if oi > math.MaxUint32 {", "if oi > math.MaxUint32+1 {"))
mut("keyimage-after-indexes-swapped", A, (T, '''			amount, err := binary.ReadUvarint(br)
			if err != nil {
				return err
			}

			size, err := binary.ReadUvarint(br)''', '''			size, err := binary.ReadUvarint(br)
			if err != nil {
				return err
			}

			amount, err := binary.ReadUvarint(br)'''))
mut("inputs-limit-removed", A, (T, '''	if inputsLen > uint64(br.Len()) {
		return io.ErrUnexpectedEOF
	}
''', "\tif inputsLen > math.MaxInt32 {\n\t\treturn io.ErrUnexpectedEOF\n\t}\n"))
mut("extra-truncated-ok", A, (T, '''	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
		return err
	}''', '''	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil && err != io.EOF {
		return err
	}'''))
mut("sigs-one-missing", A, (T, "for i := 0; i < sigSize; i++ {\n			if err := binary.Read", "for i := 0; i+1 < sigSize; i++ {\n			if err := binary.Read"))
mut("sigs-coinbase-misaligned", A, (T, '''			if !signaturesNotExpected {
				*ts = append(*ts, nil)
			}
			continue''', "\t\t\tcontinue"))
mut("sigs-expected-two", A, (T, "if len(inputs) == 1 {", "if len(inputs) >= 1 {"))
mut("sigcount", A, (T, "return len(i.OutputIndexes)", "return len(i.OutputIndexes) & 0xff"))
mut("unknown-output-tag", A, (T, '''			return errors.New(fmt.Sprintf("unknown tx output tag: %x", tag))''', '''			if tag < 16 {
				return errors.New(fmt.Sprintf("unknown tx output tag: %x", tag))
			}'''))
mut("coinbase-tag-minor", A, (T, "case TxTagCoinbase:\n			blockIndex, err", "case TxTagCoinbase, 0xfe:\n			blockIndex, err"))
mut("bigendian-nonce", A, (BL, "binary.Write(&serialized, binary.LittleEndian, h.Nonce)", "binary.Write(&serialized, binary.BigEndian, h.Nonce)"))
mut("v5-no-signature-if-nil", A, (BL, '''	if majorVersion >= config.BlockMajorVersion5 {
		sSignature''', '''	if majorVersion >= config.BlockMajorVersion5 && b.Nonce != 0 {
		sSignature'''))
mut("v3-parent-skipped", A, (BL, "if majorVersion == config.BlockMajorVersion2 || majorVersion == config.BlockMajorVersion3 {\n		parentBlock", "if majorVersion == config.BlockMajorVersion2 {\n		parentBlock"))
mut("parent-timestamp", A, (BL, "		b.Timestamp = parentBlock.Timestamp\n", ""))
mut("hashes-count-last", A, (BL, "for i := uint64(0); i < hashesCount; i++ {", "for i := uint64(0); i < hashesCount && i < 65536; i++ {"))
mut("v4-hash-parent", A, (BL, "if b.MajorVersion == config.BlockMajorVersion2 || b.MajorVersion == config.BlockMajorVersion3 {\n			allBytes", "if b.MajorVersion == config.BlockMajorVersion2 {\n			allBytes"))
mut("hash-length", A, (BL, "uint64(len(allBytes)))", "uint64(len(allBytes)&0x7f))"))
mut("hash-count-without-base", A, (BL, "binary.PutUvarint(transactionCount, uint64(len(hl)))", "binary.PutUvarint(transactionCount, uint64(len(b.TransactionsHashes)))"))
mut("hash-txs-sublist", A, (BL, "hl = append(hl, b.TransactionsHashes...)", "if len(b.TransactionsHashes) < 256 {\n\t\thl = append(hl, b.TransactionsHashes...)\n\t}"))
mut("parent-hashing-flag", A, (BL, "b.Parent.serialize(true)", "b.Parent.serialize(b.MajorVersion == config.BlockMajorVersion2)"))
mut("header-minor-version-check", A, (BL, "if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {", "if majorVersion > math.MaxUint8 {"))
mut("unknown-major", A, (BL, '''	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
		ts, err''', '''	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5, 6:
		ts, err'''))
mut("parent-txcount", A, (PB, "if txCount > math.MaxUint16 {", "if txCount > math.MaxUint32 {"))
mut("mm-depth", A, (PB, "if tef.MiningTag.Depth > 8*32 {", "if tef.MiningTag.Depth > 8*32*1024 {"))
mut("mm-nil", A, (PB, '''	if tef.MiningTag == nil {
		return errors.New("can't get extra merge mining tag")
	}

	if tef''', "	if tef.MiningTag != nil && tef"))
mut("parent-branch", A, (PB, "	for _, h := range pb.BlockchainBranch {\n", "	for _, h := range pb.BlockchainBranch[:len(pb.BlockchainBranch)/2*2] {\n"))
mut("extra-nonce", A, (EX, "TxExtraNonceMax   = 255", "TxExtraNonceMax   = 127"))
mut("extra-nonce-larger", A, (EX, "TxExtraNonceMax   = 255", "TxExtraNonceMax   = 65536"))
mut("extra-padding", A, (EX, "if padding != 0 {", "if padding != 0 && size > 1 {"))
mut("extra-pubkey-copy", A, (EX, "copy(tef.PublicKey[:], publicKeyBytes[:])", "copy(tef.PublicKey[:], publicKeyBytes[:31])"))
mut("extra-unknown", A, (EX, "default:\n			return nil, errors.New(fmt.Sprintf(\"Unknown extra tag: %x\", tag))", "default:\n			if tag < 0x80 {\n				return nil, errors.New(fmt.Sprintf(\"Unknown extra tag: %x\", tag))\n			}"))
mut("extra-depth", A, (EX, "&TransactionExtraMergeMiningTag{depth, h}", "&TransactionExtraMergeMiningTag{depth & 0xff, h}"))
mut("tx-trailing", A, ("cryptonote/chain.go", "if err == nil && r.Len() != 0 {", "if err == nil && r.Len() > 1 {"))
mut("block-trailing", A, ("p2p/notification.go", "if rawBlockReader.Len() != 0 {", "if rawBlockReader.Len() > 8 && block.MajorVersion != 5 {"))
mut("tx-cache-prefix", A, (T, "		t.hash = new(crypto.Hash)\n		t.hash.FromBytes(t.Serialize())", "		t.hash = t.TransactionPrefix.Hash()"))
mut("tx-cache-shared", A, (T, "		t.hash.FromBytes(t.Serialize())", "		t.hash.FromBytes(t.Serialize())\n		t.TransactionPrefix.hash = t.hash"))
mut("inputs-limit-1024", A, (T, "	if inputsLen > uint64(br.Len()) {", "	if inputsLen > 1024 || inputsLen > uint64(br.Len()) {"))
mut("minor-limit", A, (BL, "minorVersion > math.MaxUint8 {", "minorVersion > math.MaxInt8 {"))
mut("padding-limit", A, (EX, "if size > TxExtraPaddingMax {", "if size >= TxExtraPaddingMax {"))
mut("padding-more", A, (EX, "if size > TxExtraPaddingMax {", "if size > TxExtraPaddingMax+1 {"))
mut("mm-depth-255", A, (PB, "if tef.MiningTag.Depth > 8*32 {", "if tef.MiningTag.Depth >= 8*32 {"))
