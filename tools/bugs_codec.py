def TC(imports, body): return "package cryptonote\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"
TXF = "cryptonote/transaction.go"; BLF = "cryptonote/block.go"; PBF = "cryptonote/block_parent.go"; EXF = "cryptonote/transaction_extra.go"

bug("s01-keys-offset-buffer-reused", "S01", TXF, [("			var OutputIndexes []uint32\n", "			OutputIndexes := offsets[:0]\n"), ("	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {\n", "	var offsets []uint32\n	if inputsLen > 64 {\n		offsets = make([]uint32, 0, 16)\n	}\n	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {\n")],
 TC(["bytes", "testing"], '''
	tx := Transaction{}
	for i := uint32(0); i < 65; i++ {
		tx.Inputs = append(tx.Inputs, InputKey{Amount: 5, OutputIndexes: []uint32{100 + i}})
	}
	want := tx.TransactionPrefix.serialize()
	var got TransactionPrefix
	if err := got.deserialize(bytes.NewReader(want)); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(got.serialize(), want) {
		t.Fatal("a transaction with 65 inputs is decoded to other offsets")
	}
'''), "a transaction with more than 64 inputs", "the offsets of all inputs share one buffer, the last input's offsets overwrite the others", harness="none")

bug("s01-offset-31-bits", "S01", TXF, [("				oi, err := binary.ReadUvarint(br)\n", "				offset, err := binary.ReadUvarint(br)\n"), ("				if oi > math.MaxUint32 {\n", "				oi := int32(offset)\n				if oi < 0 || offset > math.MaxUint32 {\n")],
 TC(["bytes", "testing"], '''
	tx := TransactionPrefix{}
	tx.Inputs = []TransactionInput{InputKey{Amount: 5, OutputIndexes: []uint32{3000000000}}}
	var got TransactionPrefix
	if err := got.deserialize(bytes.NewReader(tx.serialize())); err != nil {
		t.Fatal("a valid offset above 2^31 is refused: ", err)
	}
'''), "an input with an output offset of 2^31 or more",
 "valid transactions referring to outputs far away are refused", harness="none")

bug("s02-v5-nonce-endianness", "S02", BLF, [("		_ = binary.Write(&serialized, binary.LittleEndian, h.Nonce)\n", "		if h.MajorVersion >= config.BlockMajorVersion5 {\n			_ = binary.Write(&serialized, binary.BigEndian, h.Nonce)\n		} else {\n			_ = binary.Write(&serialized, binary.LittleEndian, h.Nonce)\n		}\n")],
 TC(["bytes", "testing", "github.com/r3volut1oner/go-karbo/crypto"], '''
	b := Block{Signature: &crypto.Signature{}}
	b.MajorVersion, b.Nonce, b.Timestamp = 5, 0x01020304, 77
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{700001}}
	var got Block
	if err := got.Deserialize(bytes.NewReader(b.Serialize())); err != nil {
		t.Fatal(err)
	}
	if got.Nonce != b.Nonce {
		t.Fatalf("nonce %x read back as %x", b.Nonce, got.Nonce)
	}
'''), "a version 5 block with a nonce that is not a palindrome", "written and read nonce of version 5 blocks differ, as does their hash", harness="none")

bug("s02-merge-mining-depth", "S02", PBF, [("	for i := uint64(0); i < tef.MiningTag.Depth; i++ {\n", "	for i := byte(0); i < byte(tef.MiningTag.Depth); i++ {\n")],
 TC(["bytes", "testing", "github.com/r3volut1oner/go-karbo/crypto"], '''
	pb := ParentBlock{MajorVersion: 1, TransactionsCount: 1, BaseTransaction: BaseTransaction{&TransactionPrefix{}, nil}}
	pb.BaseTransaction.Extra = append([]byte{3, 33, 0x80, 0x02}, make([]byte, 32)...) // depth 256
	pb.BlockchainBranch = make([]crypto.Hash, 256)
	r := bytes.NewReader(pb.serialize(false))
	var got ParentBlock
	if err := got.deserialize(r); err != nil {
		t.Fatal(err)
	}
	if len(got.BlockchainBranch) != 256 || r.Len() != 0 {
		t.Fatalf("branch of %d hashes, %d bytes left", len(got.BlockchainBranch), r.Len())
	}
'''), "a merge-mined block whose tag has depth exactly 256", "the branch of such a block is not read, what follows is read from its bytes", harness="none")

bug("s03-hash-list-short", "S03", BLF, [("		hl = append(hl, h)\n	}\n	b.TransactionsHashes = hl\n", "		b.TransactionsHashes = append(b.TransactionsHashes, h)\n	}\n"), ("	hl := crypto.HashList{}\n	for i := uint64(0); i < hashesCount; i++ {", "	b.TransactionsHashes = crypto.HashList{}\n	for i := uint64(0); i < hashesCount && (i == 0 || r.Len() > 0); i++ {")],
 TC(["bytes", "testing", "github.com/r3volut1oner/go-karbo/crypto"], '''
	var b Block
	b.MajorVersion = 1
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{1}}
	b.TransactionsHashes = []crypto.Hash{{1}, {2}}
	raw := b.Serialize()
	for n := range raw {
		var got Block
		if err := got.Deserialize(bytes.NewReader(raw[:n])); err == nil {
			t.Fatalf("%d of %d bytes decode to a block with %d transactions", n, len(raw), len(got.TransactionsHashes))
		}
	}
'''), "a block with two or more transaction hashes cut after the first", "a truncated block is accepted with fewer transactions", harness="none")

bug("s03-extra-nonce-short", "S03", EXF, [("				if err := binary.Read(r, binary.LittleEndian, nb); err != nil {\n", "				if _, err := r.Read(nb); err != nil {\n")],
 TC(["testing"], '''
	if f, err := TxExtraFromBytes([]byte{2, 9, 1, 2, 3}); err == nil {
		t.Fatalf("a nonce of 9 bytes read from 3: %x", f.Nonce)
	}
'''), "an extra field ending inside its nonce", "a truncated nonce is accepted, padded with zeros", harness="none")

bug("s04-hash-list-prealloc", "S04", BLF, [("	hl := crypto.HashList{}\n	for i := uint64(0)", "	hl := make(crypto.HashList, 0, hashesCount)\n	for i := uint64(0)")],
 TC(["bytes", "encoding/binary", "testing"], '''
	var b Block
	b.MajorVersion = 1
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{1}}
	raw := b.Serialize()
	raw = binary.AppendUvarint(raw[:len(raw)-1], 1<<60)
	var got Block
	if err := got.Deserialize(bytes.NewReader(raw)); err == nil {
		t.Fatal("2^60 hashes read from nothing")
	}
'''), "a block announcing an enormous number of transaction hashes", "a few bytes from a peer make the node allocate the announced size and crash", harness="none")

bug("s04-nonce-limit-after", "S04", EXF, [("			if size > uint64(TxExtraNonceMax) {\n				return nil, ErrNonceMax\n			}\n\n			if size > 0 {\n				nb := make([]byte, size)\n				if err := binary.Read(r, binary.LittleEndian, nb); err != nil {\n					return nil, err\n				}\n", "			if size > 0 {\n				nb := make([]byte, size)\n				if err := binary.Read(r, binary.LittleEndian, nb); err != nil {\n					return nil, err\n				}\n				if size > uint64(TxExtraNonceMax) {\n					return nil, ErrNonceMax\n				}\n")],
 TC(["encoding/binary", "testing"], '''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("parsing crashed: ", r)
		}
	}()
	if _, err := TxExtraFromBytes(binary.AppendUvarint([]byte{2}, 1<<50)); err == nil {
		t.Fatal("a nonce of 2^50 bytes read from nothing")
	}
'''), "an extra field announcing an enormous nonce", "the announced size is allocated before it is checked", harness="none")

bug("s05-count-one-byte", "S05", BLF, [("	transactionCount := make([]byte, binary.MaxVarintLen64)\n	written := binary.PutUvarint(transactionCount, uint64(len(hl)))\n	allBytesBuffer.Write(transactionCount[:written])\n", "	allBytesBuffer.WriteByte(byte(len(hl)))\n")],
 TC(["encoding/binary", "bytes", "testing", "github.com/r3volut1oner/go-karbo/crypto"], '''
	var b Block
	b.MajorVersion = 1
	b.TransactionsHashes = make([]crypto.Hash, 199)
	if !bytes.HasSuffix(b.HashingBytes(), binary.AppendUvarint(nil, 200)) {
		t.Fatal("the hashing bytes do not end with the varint of the number of transactions")
	}
'''), "a block with 127 transactions or more", "such blocks get another hash than the network computes", harness="none")

bug("s05-prefix-without-extra", "S05", TXF, [("		hash := crypto.HashFromBytes(tp.serialize())\n		tp.hash = &hash\n", "		covered := tp.serialize()\n		if tp.Version > 1 {\n			covered = covered[:len(covered)-len(tp.Extra)]\n		}\n		hash := crypto.HashFromBytes(covered)\n		tp.hash = &hash\n")],
 TC(["testing"], '''
	a, b := Transaction{}, Transaction{}
	a.Extra, b.Extra = []byte{1, 2, 3}, []byte{1, 2, 4}
	a.Version, b.Version = 2, 2
	if *a.TransactionPrefix.Hash() == *b.TransactionPrefix.Hash() {
		t.Fatal("two prefixes with different extra fields have the same hash")
	}
'''), "two transactions of version 2 that differ in the extra field only", "the prefix hash, which signatures cover, does not cover the extra field", harness="none")

bug("s06-padding-limit", "S06", EXF, [("				if size > TxExtraPaddingMax {\n", "				if size >= TxExtraPaddingMax {\n")],
 TC(["testing"], '''
	if _, err := TxExtraFromBytes(make([]byte, 256)); err != nil {
		t.Fatal("255 bytes of padding are refused: ", err)
	}
	if _, err := TxExtraFromBytes(make([]byte, 257)); err == nil {
		t.Fatal("256 bytes of padding are accepted")
	}
'''), "padding of exactly 255 bytes", "valid padding is refused one byte early", harness="none")

bug("s06-depth-truncated", "S06", EXF, [("			depth, err := binary.ReadUvarint(r)\n			if err != nil {\n				return nil, err\n			}\n\n			var h crypto.Hash", "			depthByte, err := r.ReadByte()\n			if err != nil {\n				return nil, err\n			}\n			depth := uint64(depthByte)\n			if depthByte >= 0x80 {\n				_ = r.UnreadByte()\n				full, err := binary.ReadUvarint(r)\n				if err != nil {\n					return nil, err\n				}\n				depth = full & 0x7fff\n			}\n\n			var h crypto.Hash")],
 TC(["testing"], '''
	f, err := TxExtraFromBytes(append([]byte{3, 33, 0x80, 0x80, 0x04}, make([]byte, 32)...))
	if err == nil && f.MiningTag.Depth != 1<<16 {
		t.Fatalf("depth 65536 read as %d", f.MiningTag.Depth)
	}
'''), "a merge-mining tag with a depth of 32768 or more", "the depth is cut, so an oversized depth passes as a small one", harness="none")
