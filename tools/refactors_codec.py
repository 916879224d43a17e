T = "cryptonote/transaction.go"; BL = "cryptonote/block.go"; PB = "cryptonote/block_parent.go"; EX = "cryptonote/transaction_extra.go"; H = "crypto/hash.go"
ref("codec-write-helper", (T, '''	written := binary.PutUvarint(varIntBuf, uint64(tp.Version))
	serialized.Write(varIntBuf[:written])

	written = binary.PutUvarint(varIntBuf, tp.UnlockHeight)
	serialized.Write(varIntBuf[:written])

	written = binary.PutUvarint(varIntBuf, uint64(len(tp.Inputs)))
	serialized.Write(varIntBuf[:written])
''', '''	writeUvarint(&serialized, uint64(tp.Version))
	writeUvarint(&serialized, tp.UnlockHeight)

	written := binary.PutUvarint(varIntBuf, uint64(len(tp.Inputs)))
	serialized.Write(varIntBuf[:written])
'''), (T, "func (ts TransactionSignatures) serialize(", '''func writeUvarint(w *bytes.Buffer, v uint64) {
	buf := make([]byte, binary.MaxVarintLen64)
	w.Write(buf[:binary.PutUvarint(buf, v)])
}

func (ts TransactionSignatures) serialize('''))
ref("codec-append-uvarint", (BL, '''		allBytesCount := make([]byte, binary.MaxVarintLen64)
		written := binary.PutUvarint(allBytesCount, uint64(len(allBytes)))

		var h bytes.Buffer
		h.Write(allBytesCount[:written])
		h.Write(allBytes)

		b.hash = new(crypto.Hash)
		b.hash.FromBytes(h.Bytes())
''', '''		h := binary.AppendUvarint(nil, uint64(len(allBytes)))
		h = append(h, allBytes...)

		hash := crypto.HashFromBytes(h)
		b.hash = &hash
'''))
ref("codec-range-loops", (BL, '''	for i := 0; i < len(b.TransactionsHashes); i++ {
		serialized.Write(b.TransactionsHashes[i][:])
	}''', '''	for _, h := range b.TransactionsHashes {
		serialized.Write(h[:])
	}'''), (PB, '''	for _, tb := range pb.BaseTransactionBranch {
		serialized.Write(tb[:])
	}''', '''	for i := range pb.BaseTransactionBranch {
		serialized.Write(pb.BaseTransactionBranch[i][:])
	}'''))
ref("codec-merge-mined", (BL, '''	if majorVersion == config.BlockMajorVersion2 || majorVersion == config.BlockMajorVersion3 {
		serialized.Write(b.Parent''', '''	if b.mergeMined() {
		serialized.Write(b.Parent'''), (BL, "		if b.MajorVersion == config.BlockMajorVersion2 || b.MajorVersion == config.BlockMajorVersion3 {\n			allB", "		if b.mergeMined() {\n			allB"),
 (BL, "func (b *Block) Index() uint32 {", '''func (b *Block) mergeMined() bool {
	switch b.MajorVersion {
	case config.BlockMajorVersion2, config.BlockMajorVersion3:
		return true
	}
	return false
}

func (b *Block) Index() uint32 {'''))
ref("codec-read-count-helper", (T, '''	inputsLen, err := binary.ReadUvarint(br)
	if err != nil {
		return err
	}
	if inputsLen > uint64(br.Len()) {
		return io.ErrUnexpectedEOF
	}
''', '''	inputsLen, err := readCount(br)
	if err != nil {
		return err
	}
'''), (T, '''	outputLen, err := binary.ReadUvarint(br)
	if err != nil {
		return err
	}
	if outputLen > uint64(br.Len()) {
		return io.ErrUnexpectedEOF
	}
''', '''	outputLen, err := readCount(br)
	if err != nil {
		return err
	}
'''), (T, "func (ts TransactionSignatures) serialize(", '''func readCount(br *bytes.Reader) (uint64, error) {
	n, err := binary.ReadUvarint(br)
	if err != nil {
		return 0, err
	}
	if n > uint64(br.Len()) {
		return 0, io.ErrUnexpectedEOF
	}
	return n, nil
}

func (ts TransactionSignatures) serialize('''))
ref("codec-input-helper", (T, '''		case TxTagCoinbase:
			blockIndex, err := binary.ReadUvarint(br)
			if err != nil {
				return err
			}

			if blockIndex > math.MaxUint32 {
				return errors.New("coinbase block index is too big")
			}

			tp.Inputs[inputIndex] = InputCoinbase{uint32(blockIndex)}
''', '''		case TxTagCoinbase:
			var in InputCoinbase
			if err := in.read(br); err != nil {
				return err
			}

			tp.Inputs[inputIndex] = in
'''), (T, "func (ts TransactionSignatures) serialize(", '''func (i *InputCoinbase) read(br *bytes.Reader) error {
	blockIndex, err := binary.ReadUvarint(br)
	if err != nil {
		return err
	}

	if blockIndex >= 1<<32 {
		return errors.New("coinbase block index is too big")
	}

	i.BlockIndex = uint32(blockIndex)
	return nil
}

func (ts TransactionSignatures) serialize('''))
ref("codec-inputs-append", (T, "	tp.Inputs = make([]TransactionInput, inputsLen)\n", "	inputs := make([]TransactionInput, 0, inputsLen)\n"),
 (T, "			tp.Inputs[inputIndex] = InputCoinbase{uint32(blockIndex)}\n", "			inputs = append(inputs, InputCoinbase{BlockIndex: uint32(blockIndex)})\n"),
 (T, '''			tp.Inputs[inputIndex] = InputKey{
				Amount:        amount,
				OutputIndexes: OutputIndexes,
				KeyImage:      Key,
			}
''', '''			inputs = append(inputs, InputKey{
				Amount:        amount,
				OutputIndexes: OutputIndexes,
				KeyImage:      Key,
			})
'''), (T, '''	/**
	 * Read transaction Output
	 */
''', '''	tp.Inputs = inputs

	/**
	 * Read transaction Output
	 */
'''))
ref("codec-hash-readfull", (H, "	if err := binary.Read(r, binary.LittleEndian, hash); err != nil {\n		return err\n	}\n\n	return nil", "	_, err := io.ReadFull(r, hash[:])\n	return err"), (H, '"encoding/hex"\n', '"encoding/hex"\n	"io"\n'), (H, '	"encoding/binary"\n', ''))
ref("codec-header-if", (BL, '''	switch h.MajorVersion {
	case config.BlockMajorVersion2, config.BlockMajorVersion3:
		serialized.Write(h.PreviousBlockHash[:])
	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
		written = binary.PutUvarint(buf, h.Timestamp)
		serialized.Write(buf[:written])
		serialized.Write(h.PreviousBlockHash[:])
		_ = binary.Write(&serialized, binary.LittleEndian, h.Nonce)
	default:
	}
''', '''	merged := h.MajorVersion == config.BlockMajorVersion2 || h.MajorVersion == config.BlockMajorVersion3
	if !merged {
		written = binary.PutUvarint(buf, h.Timestamp)
		serialized.Write(buf[:written])
	}
	serialized.Write(h.PreviousBlockHash[:])
	if !merged {
		var nonce [4]byte
		binary.LittleEndian.PutUint32(nonce[:], h.Nonce)
		serialized.Write(nonce[:])
	}
'''))
ref("codec-header-direct", (BL, '''	if ts != 0 {
		h.Timestamp = ts
	}

	if nonce != 0 {
		h.Nonce = nonce
	}

	return nil''', '''	h.Timestamp = ts
	h.Nonce = nonce

	return nil'''))
ref("codec-hash-lists", (BL, '''	hl := crypto.HashList{}
	for i := uint64(0); i < hashesCount; i++ {
		var h crypto.Hash
		if err := h.Read(r); err != nil {
			return err
		}
		hl = append(hl, h)
	}
	b.TransactionsHashes = hl
''', '''	b.TransactionsHashes = nil
	for ; hashesCount > 0; hashesCount-- {
		var h crypto.Hash
		if err := h.Read(r); err != nil {
			return err
		}
		b.TransactionsHashes = append(b.TransactionsHashes, h)
	}
'''))
ref("codec-hashing-loop", (BL, "	hl = append(hl, b.TransactionsHashes...)\n", "	for _, h := range b.TransactionsHashes {\n		hl = append(hl, h)\n	}\n"), (BL, "uint64(len(hl)))", "uint64(len(b.TransactionsHashes)+1))"))
ref("codec-extra-helper", (EX, '''			size := 0
			for {
				size++
				padding, err := r.ReadByte()
				if err == io.EOF {
					break
				} else if err != nil {
					return nil, err
				}

				if padding != 0 {
					return nil, ErrPaddingNotZero
				}

				if size > TxExtraPaddingMax {
					return nil, ErrPaddingMax
				}
			}
''', '''			if err := skipPadding(r); err != nil {
				return nil, err
			}
'''), (EX, "func (tp *TransactionPrefix) ParseExtra", '''func skipPadding(r *bytes.Reader) error {
	for size := 1; ; size++ {
		padding, err := r.ReadByte()
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		if padding != 0 {
			return ErrPaddingNotZero
		}
		if size > TxExtraPaddingMax {
			return ErrPaddingMax
		}
	}
}

func (tp *TransactionPrefix) ParseExtra'''))
ref("codec-extra-direct-key", (EX, '''			publicKeyBytes := make([]byte, 32)
			if err := binary.Read(r, binary.LittleEndian, publicKeyBytes); err != nil {
				return nil, err
			}
			copy(tef.PublicKey[:], publicKeyBytes[:])
''', '''			if err := binary.Read(r, binary.LittleEndian, &tef.PublicKey); err != nil {
				return nil, err
			}
'''))
ref("codec-sigs-prealloc", (T, '''		sigs := make([]crypto.Signature, sigSize)
		for i := 0; i < sigSize; i++ {
			if err := binary.Read(br, binary.LittleEndian, &sigs[i]); err != nil {
				return err
			}
		}
''', '''		var sigs []crypto.Signature
		for len(sigs) < sigSize {
			var sig crypto.Signature
			if err := sig.Deserialize(br); err != nil {
				return err
			}
			sigs = append(sigs, sig)
		}
'''))
ref("codec-sig-write", (T, "			_ = binary.Write(&serialized, binary.LittleEndian, sig)\n", "			b, _ := sig.Serialize()\n			serialized.Write(b)\n"))
ref("codec-tx-deserialize", (T, '''	if err := t.TransactionSignatures.deserialize(r, t); err != nil {
		return err
	}

	return nil
}''', '''	return t.TransactionSignatures.deserialize(r, t)
}'''))
ref("codec-typeswitch", (T, '''	for _, input := range tp.Inputs {
		switch input.(type) {
		case InputCoinbase:
			serialized.WriteByte(TxTagCoinbase)

			written = binary.PutUvarint(varIntBuf, uint64(input.(InputCoinbase).BlockIndex))
			serialized.Write(varIntBuf[:written])
		case InputKey:
			inputKey := input.(InputKey)
			serialized''', '''	for _, input := range tp.Inputs {
		switch inputKey := input.(type) {
		case InputCoinbase:
			serialized.WriteByte(TxTagCoinbase)

			written = binary.PutUvarint(varIntBuf, uint64(inputKey.BlockIndex))
			serialized.Write(varIntBuf[:written])
		case InputKey:
			serialized'''))
ref("codec-parent-order", (PB, '''	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
		return errors.New("parent block version is too big")
	}

	if txCount > math.MaxUint16 {
		return errors.New("parent block transactions count is too big")
	}
''', '''	if txCount > math.MaxUint16 || minorVersion > math.MaxUint8 || majorVersion > math.MaxUint8 {
		return errors.New("parent block is malformed")
	}
'''), (PB, "	pb.MajorVersion = byte(majorVersion)\n	pb.MinorVersion = byte(minorVersion)\n	pb.Timestamp = timestamp\n	pb.Nonce = nonce\n	pb.Prev = prev\n\n	pb.TransactionsCount = uint16(txCount)\n	pb.BaseTransactionBranch = baseTxBranch\n	pb.BaseTransaction = baseTx\n	pb.BlockchainBranch = blockchainBranch\n", "	*pb = ParentBlock{\n		MajorVersion: byte(majorVersion), MinorVersion: byte(minorVersion), Timestamp: timestamp, Nonce: nonce, Prev: prev,\n		TransactionsCount: uint16(txCount), BaseTransactionBranch: baseTxBranch, BaseTransaction: baseTx, BlockchainBranch: blockchainBranch,\n	}\n"))
ref("codec-raw-tx-helper", ("cryptonote/chain.go", '''		r := bytes.NewReader(rt[i])
		err := transactions[i].Deserialize(r)
		if err == nil && r.Len() != 0 {
			err = errors.New("unexpected bytes after the transaction")
		}
		if err != nil {''', '''		if err := decodeTransaction(&transactions[i], rt[i]); err != nil {'''), ("cryptonote/chain.go", "// lastBlocksTimestamps fetches", '''func decodeTransaction(t *Transaction, raw []byte) error {
	r := bytes.NewReader(raw)
	if err := t.Deserialize(r); err != nil {
		return err
	}
	if r.Len() > 0 {
		return errors.New("unexpected bytes after the transaction")
	}
	return nil
}

// lastBlocksTimestamps fetches'''))
