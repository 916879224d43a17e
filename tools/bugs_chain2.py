def C2(body, imports=("testing",)): return "package cryptonote\n\nimport (\n" + "".join('\t"%s"\n' % x for x in imports) + ")\n\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"
_CH = "cryptonote/chain.go"; _V = "cryptonote/transaction_validator.go"

bug("c01-redelivered-below-top", "C01", _CH, [("\tif bc.haveBlock(blockHash) {\n", "\t// only blocks at the top of the chain can be delivered twice\n\tif blockIndex >= bc.bestTip.Index() && bc.haveBlock(blockHash) {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	first := demoSeal(t, b)
	if err := bc.AddBlock(first, raw); err != nil {
		t.Fatal(err)
	}
	b2, raw2 := demoBlock(t, bc, first, 0)
	demoAccept(t, bc, b2, raw2, "the next block")
	if err := bc.AddBlock(demoSeal(t, b), raw); err != ErrAddBlockAlreadyExists {
		t.Fatalf("a block delivered again after its successor: %v", err)
	}
"""), "a block delivered a second time after its successor was added", "a known block below the top is validated and stored again")

bug("c01-index-gap", "C01", _CH, [("\tif blockIndex != prevBlock.Index()+1 {\n", "\tif blockIndex <= prevBlock.Index() {\n"),
 ("\tif block.BaseTransaction.Inputs[0].(InputCoinbase).BlockIndex != prevBlockIndex+1 {\n", "\tif block.BaseTransaction.Inputs[0].(InputCoinbase).BlockIndex <= prevBlockIndex {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	b.BaseTransaction.Inputs[0] = InputCoinbase{BlockIndex: 1006}
	demoRefuse(t, bc, b, raw, "a block of index 1006 on top of block 1000")
"""), "a block whose index skips some indexes after its predecessor", "a block that does not carry its predecessor's index plus one is accepted: two comparisons of the index were loosened together")

bug("c02-parent-size-v3", "C02", _CH, [("\tif block.MajorVersion == config.BlockMajorVersion2 || block.MajorVersion == config.BlockMajorVersion3 {\n", "\tif block.MajorVersion == config.BlockMajorVersion2 {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 219999, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	demoAccept(t, bc, b, raw, "version 3 block")
	p = bc.TopBlock()
	b, raw = demoBlock(t, bc, p, 0)
	b.Parent.BaseTransaction.Extra = make([]byte, 3000)
	demoRefuse(t, bc, b, raw, "version 3 block with a parent block over 2048 bytes")
"""), "a version 3 block with an oversized parent block", "the size of the parent block is checked for version 2 only")

bug("c03-multisig-keys", "C03", _CH, [("\t\t\tfor ki, key := range multisigOutput.Keys {\n", "\t\t\tfor ki, key := range multisigOutput.Keys[:multisigOutput.RequiredSignaturesCount] {\n")],
 C2("""
	bad := crypto.PublicKey{}
	for i := 0; bad.Check(); i++ {
		bad[0] = byte(i)
		bad[31] = 0x7f
	}
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	good := b.BaseTransaction.Outputs[0].Amount
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: good, Target: OutputMultisignature{RequiredSignaturesCount: 1, Keys: []crypto.PublicKey{demoPub, bad}}}}
	demoRefuse(t, bc, b, raw, "coinbase output to a multisignature with an invalid second key")
""", ("testing", "github.com/r3volut1oner/go-karbo/crypto")), "a coinbase output to a one of two multisignature whose second key is not a point", "only as many keys as signatures are required get checked")

bug("c04-any-order", "C04", _CH, [("\t\tif *txHash != block.TransactionsHashes[i] {\n", "\t\tnamed := crypto.HashList(block.TransactionsHashes)\n\t\tif !named.Has(txHash) {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 5e8, demoTx(1, []uint64{3e9}, []uint64{28e8}), demoTx(2, []uint64{3e9}, []uint64{27e8}))
	raw[0], raw[1] = raw[1], raw[0]
	demoRefuse(t, bc, b, raw, "transactions delivered in another order than the block names them")
"""), "transactions delivered in another order than the block's hash list", "the i-th transaction is no longer the i-th the block names")

bug("c04-missing-transactions", "C04", _CH, [("\tif len(block.TransactionsHashes) != len(transactions) {\n", "\tif len(transactions) > len(block.TransactionsHashes) {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	one := demoTx(1, []uint64{3e9}, []uint64{28e8})
	b, raw := demoBlock(t, bc, p, 2e8, one)
	b.TransactionsHashes = append(b.TransactionsHashes, *demoTx(2, []uint64{3e9}, []uint64{27e8}).Hash())
	demoRefuse(t, bc, b, raw, "a block naming two transactions delivered with one")
"""), "a block delivered with fewer transactions than it names", "a block is accepted although some of its transactions were not delivered")

bug("c05-claims-less", "C05", _CH, [("\tif expectedReward != minerReward {\n", "\tif minerReward > expectedReward {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	b.BaseTransaction.Outputs[0].Amount--
	demoRefuse(t, bc, b, raw, "a block claiming one unit less than its reward")
"""), "a miner claiming less than the reward", "blocks whose reward differs from the computed one are accepted, and the recorded emission no longer matches the coins that exist")

bug("c06-signature-in-zone", "C06", _CH, [("\tif block.MajorVersion >= config.BlockMajorVersion5 {\n\t\tsigHash :=", "\tif block.MajorVersion >= config.BlockMajorVersion5 && !bc.Checkpoints.IsInCheckpointZone(blockIndex) {\n\t\tsigHash :=")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 710000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	n := demoSeal(t, b)
	n.Signature.R[0] ^= 1
	if err := bc.AddBlock(n, raw); err != ErrBlockValidationBlockSignatureMismatch {
		t.Fatalf("version 5 block with a foreign signature: %v", err)
	}
"""), "a version 5 block below the last checkpoint with a signature that is not the miner's", "blocks between the checkpoints need no signature")

bug("c06-last-checkpoint", "C06", _CH, [("\tif bc.Checkpoints.IsInCheckpointZone(blockIndex) {\n", "\tif bc.Checkpoints.IsInCheckpointZone(blockIndex + 1) {\n")],
 C2("""
	bc := demoChain(t, false)
	if err := bc.Checkpoints.AddCheckpoint(1001, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	demoRefuse(t, bc, b, raw, "a block at the last checkpoint with another hash")
""", ("testing", "github.com/r3volut1oner/go-karbo/crypto")), "a block at exactly the height of the last checkpoint", "the last checkpoint is never compared")

bug("c08-coins-with-fees", "C08", _CH, [("\texpectedReward, emissionChange, err := bc.Network.GetBlockReward(\n", "\texpectedReward, _, err := bc.Network.GetBlockReward(\n"), ("prevBlockInfo.TotalGeneratedCoins + emissionChange,", "prevBlockInfo.TotalGeneratedCoins + expectedReward,")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 2e8, demoTx(1, []uint64{3e9}, []uint64{28e8}))
	demoAccept(t, bc, b, raw, "a block with a fee")
	before, after := bc.storage.getBlockInfoAtIndex(1000), bc.storage.getBlockInfoAtIndex(1001)
	if after.TotalGeneratedCoins-before.TotalGeneratedCoins != b.BaseTransaction.Outputs[0].Amount-2e8 {
		t.Fatalf("the recorded emission grew by %d", after.TotalGeneratedCoins-before.TotalGeneratedCoins)
	}
"""), "a block with fee paying transactions", "fees are recorded as newly generated coins")

bug("c09-coinbase-not-counted", "C09", _CH, [("\tif blockSize > bc.Network.MaxBlockSize(uint64(blockIndex)) {\n", "\tif transactionsSize > bc.Network.MaxBlockSize(uint64(blockIndex)) {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 900000)
	tx := demoTx(1, []uint64{3e9}, []uint64{28e8})
	tx.Extra = append(tx.Extra, make([]byte, int(bc.Network.MaxBlockSize(1001))-len(tx.Serialize())-20)...)
	big := demoTx(1, []uint64{3e9}, []uint64{28e8})
	big.Extra = tx.Extra
	b, raw := demoBlock(t, bc, p, 2e8, big)
	demoRefuse(t, bc, b, raw, "a block that is too big by its coinbase")
"""), "a block whose transactions just fit and whose coinbase exceeds the limit", "the base transaction is not counted in the block size limit")

bug("t01-zero-amount-image", "T01", _V, [("\t\t\tif _, ok := validator.spentKeyImages[input.KeyImage]; ok {\n", "\t\t\tif validator.spentKeyImages[input.KeyImage] {\n"), ("\t\t\tvalidator.spentKeyImages[input.KeyImage] = true\n", "\t\t\tvalidator.spentKeyImages[input.KeyImage] = input.Amount != 0\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	one := demoTx(1, []uint64{0, 3e9}, []uint64{28e8})
	two := demoTx(2, []uint64{0, 3e9}, []uint64{28e8})
	in := two.Inputs[0].(InputKey)
	in.KeyImage = one.Inputs[0].(InputKey).KeyImage
	two.Inputs[0] = in
	b, raw := demoBlock(t, bc, p, 4e8, one, two)
	demoRefuse(t, bc, b, raw, "two transactions with the same key image on inputs without an amount")
"""), "two transactions of a block sharing the key image of inputs of amount zero", "the key image of an input without an amount is not remembered")

bug("t02-decomposed-one-late", "T02", _V, [("\t\tif validator.blockIndex >= config.UpgradeHeightV5 {\n", "\t\tif validator.blockIndex > config.UpgradeHeightV5 {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 699999, 500, 500)
	b, raw := demoBlock(t, bc, p, 2e11-12345678901, demoTx(1, []uint64{2e11}, []uint64{12345678901}))
	demoRefuse(t, bc, b, raw, "block 700000 with an output of 12345678901")
"""), "a block at exactly height 700000 with an output that is not a round amount", "the rule on round amounts starts one block late")

bug("t02-zero-among-others", "T02", _V, [("\t\tif output.Amount == 0 {\n", "\t\tif output.Amount == 0 && len(transaction.Outputs) == 1 {\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 2e8, demoTx(1, []uint64{3e9}, []uint64{28e8, 0}))
	demoRefuse(t, bc, b, raw, "an output of amount zero beside another")
"""), "an output of amount zero in a transaction with several outputs", "outputs without an amount are accepted")

bug("t04-after-last-checkpoint", "T04", _V, [("\tif validator.bc.Checkpoints.IsInCheckpointZone(validator.blockIndex) {\n\t\treturn nil\n", "\tif validator.bc.Checkpoints.IsInCheckpointZone(validator.blockIndex - 1) {\n\t\treturn nil\n")],
 C2("""
	bc := demoChain(t, false)
	if err := bc.Checkpoints.AddCheckpoint(1000, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	p := demoFiller(t, bc, 1000, 500, 500)
	tx := demoTx(1, []uint64{3e9}, []uint64{28e8})
	in := tx.Inputs[0].(InputKey)
	in.KeyImage = crypto.KeyImage(demoPub)
	tx.Inputs[0] = in
	b, raw := demoBlock(t, bc, p, 2e8, tx)
	demoRefuse(t, bc, b, raw, "a forged spend in the first block after the last checkpoint")
""", ("testing", "github.com/r3volut1oner/go-karbo/crypto")), "a spend in the first block after the last checkpoint", "the ring signatures of that block are not checked")

bug("t05-extra-size-byte", "T05", _V, [("\textraSize := uint64(len(transaction.Extra))\n", "\textraSize := uint64(uint8(len(transaction.Extra)))\n")],
 C2("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 680000, 500, 500)
	tx := demoTx(1, []uint64{2e11}, []uint64{19e10})
	tx.Extra = append(tx.Extra, make([]byte, 267)...)
	b, raw := demoBlock(t, bc, p, 1e10, tx)
	demoRefuse(t, bc, b, raw, "an extra field of 300 bytes with the plain minimal fee")
"""), "an extra field longer than 255 bytes", "the size of the extra field is taken modulo 256, so long extra fields are free")
