def gbug(id, prop, file, edits, body, needs, breaks, imports="", pkg="cryptonote", harness="chain"):
    bug(id, prop, file, edits, "package " + pkg + '\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestVerifDemo(t *testing.T) {\n' + body + "}\n", needs, breaks, pkg=pkg, harness=harness)
CFG = dict(pkg="config", harness="none")
CRY = '	"github.com/r3volut1oner/go-karbo/crypto"\n	"github.com/sirupsen/logrus"\n	"io"\n'
gbug("n02-growth-32-bits", "N02", "config/network.go", [("		((h * n.maxBlockSizeGrowthSpeedNumerator) / n.maxBlockSizeGrowthSpeedDenominator)\n", "		uint64(uint32(h*n.maxBlockSizeGrowthSpeedNumerator))/n.maxBlockSizeGrowthSpeedDenominator\n")], '''
	n := MainNet()
	if a, b := n.MaxBlockSize(41943), n.MaxBlockSize(41944); b < a {
		t.Fatalf("%d, then %d", a, b)
	}
''', "a height above 41943", "the block size limit starts again from its initial value", **CFG)
gbug("n02-amounts-search", "N02", "config/network.go", [('''	for _, value := range PrettyAmounts {
		if value == amount {
			return true
		}
	}

	return false
''', '''	low, high := 0, len(PrettyAmounts)-1
	for low < high {
		middle := (low + high) / 2
		if PrettyAmounts[middle] < amount {
			low = middle + 1
		} else {
			high = middle
		}
	}

	return low < high+1 && PrettyAmounts[low] == amount && low != len(PrettyAmounts)-1
''')], '''
	for _, v := range PrettyAmounts {
		if !MainNet().IsValidDecomposedAmount(v) {
			t.Fatal(v)
		}
	}
''', "the largest denomination", "the largest canonical amount is refused", **CFG)
gbug("n02-test-net-forks", "N02", "config/network.go", [("	testnet.GenesisNonce = 71\n", "	testnet.GenesisNonce = 71\n	testnet.blockUpgradesMap[BlockMajorVersion5] = UpgradeHeightV4s3\n"), ("	testnet.allowLowDifficulty = true\n", "	testnet.allowLowDifficulty = (testnet.GenesisNonce == 71)\n")], '''
	if v := TestNet().GetBlockMajorVersion(667001); v != 4 {
		t.Fatalf("version %d", v)
	}
''', "the test net between the heights 667001 and 700000", "the test net forks to version 5 at another height", **CFG)
gbug("n02-extra-fee-below-minimum", "N02", "config/network.go", [("		return minFee / (100 * (txExtraSize - 100))\n", "		return minFee / (100 * (txExtraSize - 100 + 1))\n")], '''
	if f := MainNet().GetFeePerByte(200, 1000000); f != 100 {
		t.Fatalf("fee %d", f)
	}
''', "an extra field longer than 100 bytes", "the fee for the extra field is too low", **CFG)
gbug("n03-passed-once", "N03", "config/checkpoints.go", [('''		if checkpointHash == *hash {
			return nil
''', '''		if passed := checkpointHash == *hash; passed {
			// found on the chain, nothing has to be compared for this height any more
			delete(cp.points, index)
			return nil
''')], '''
	l := logrus.New()
	l.SetOutput(io.Discard)
	cp := NewCheckpoints(l)
	_ = cp.AddCheckpoint(10, crypto.Hash{1})
	if err := cp.CheckBlock(10, &crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	if cp.CheckBlock(10, &crypto.Hash{2}) == nil {
		t.Fatal("another block passes the checkpoint")
	}
''', "a second block offered for the height of a checkpoint whose block passed before", "a checkpoint binds only until it is met once", imports=CRY, **CFG)
gbug("n03-last-added", "N03", "config/checkpoints.go", [('''	sort.Slice(cp.pointsSorted, func(i, j int) bool {
		return cp.pointsSorted[i] < cp.pointsSorted[j]
	})
''', '''	if last := len(cp.pointsSorted) - 1; last > 0 && cp.pointsSorted[last-1] > index {
		cp.pointsSorted[last-1], cp.pointsSorted[last] = index, cp.pointsSorted[last-1]
	}
'''), ('''	"sort"
''', '')], '''
	l := logrus.New()
	l.SetOutput(io.Discard)
	cp := NewCheckpoints(l)
	_ = cp.AddCheckpoint(30, crypto.Hash{1})
	_ = cp.AddCheckpoint(20, crypto.Hash{1})
	_ = cp.AddCheckpoint(10, crypto.Hash{1})
	if !cp.IsInCheckpointZone(30) {
		t.Fatal("the zone ends early")
	}
	if cp.AlternativeBlockAllowed(12, 9) == nil {
		t.Fatal("an alternative below the checkpoint at 10 is allowed")
	}
''', "three checkpoints added from the highest to the lowest", "the checkpoints are not in order and one that the chain has reached is overlooked", imports=CRY, **CFG)
gbug("n04-penalty-on-fees-kept", "N04", "config/network.go", [("	emissionChange := penalizedBaseReward - (fee - penalizedFee)\n", "	emissionChange := penalizedBaseReward - fee + penalizedFee/2*2\n")], '''
	n := MainNet()
	if _, e, err := n.GetBlockReward(5, 0, 1000, 0, 7); err != nil || e != n.calculateReward(0) {
		t.Fatal(e, err)
	}
''', "an odd penalized fee", "the emission counts one coin unit too little", **CFG)
gbug("n04-median-of-old-version", "N04", "config/network.go", [("	medianSize = utils.MaxUint64(medianSize, n.BlockGrantedFullRewardZoneByBlockVersion(majorVersion))\n", '''	if medianSize == 0 {
		medianSize = n.BlockGrantedFullRewardZoneByBlockVersion(majorVersion)
	}
'''), ('''	"github.com/r3volut1oner/go-karbo/utils"
''', '''	"github.com/r3volut1oner/go-karbo/utils"
''')], '''
	n := MainNet()
	if _, _, err := n.GetBlockReward(5, 500, 2000, 0, 0); err != nil {
		t.Fatal(err)
	}
''', "blocks smaller than the full reward zone", "blocks above twice the median of small blocks are refused", **CFG)
gbug("m01-top-is-last-pushed", "M01", "cryptonote/storage_memory.go", [("	if s.topBlock == nil || index > s.topBlock.Index() {\n", "	if s.topBlock == nil || len(s.blockIndex) > 1 {\n")], '''
	bc := demoChain(t, true)
	demoFiller(t, bc, 50, 3, 1000)
	demoFiller(t, bc, 20, 3, 1000)
	if i, _ := bc.storage.TopIndex(); i != 50 {
		t.Fatalf("top index %d", i)
	}
''', "a block stored with an index below the top block's", "the top block is not the one with the highest index")
gbug("m01-record-first", "M01", "cryptonote/storage_memory.go", [('''	if *block.Hash() != info.Hash {
		return utils.AssertionError("block info hash and block hash must be same")
	}
''', '''	if *block.Hash() != info.Hash {
		return utils.AssertionError("block info hash and block hash must be same")
	}

	if _, ok := s.blockInfosHashIndex[*hash]; !ok {
		s.blockInfosHashIndex[*hash] = info
	} else {
		return ErrStorageBlockExists
	}
'''), ('''	if s.haveBlock(hash) {
		return ErrStorageBlockExists
	}

	if _''', '''	if _'''), ("	s.blockInfosHashIndex[*hash] = info\n\n	s.tr", "\n	s.tr")], '''
	bc := demoChain(t, true)
	prev := demoFiller(t, bc, 50, 3, 1000)
	b := &Block{BaseTransaction: demoCoinbase(50, 60, 5)}
	b.PreviousBlockHash = *prev.Hash()
	info := blockInfo{Index: 50, Hash: *b.Hash()}
	if err := bc.storage.PushBlock(b, &info, TransactionsDetails{}); err == nil {
		t.Fatal("a second block at one index")
	}
	if bc.storage.HaveBlock(b.Hash()) {
		t.Fatal("the refused block is said to be stored")
	}
''', "a second block for an index that is taken", "the record of the refused block stays filed under its hash")
gbug("c07-tip-before-store", "C07", "cryptonote/chain.go", [('''	if err := bc.storage.PushBlock(block, &info, transactionsDetails); err != nil {
		return err
	}

	bc.bestTip = block

	return nil
''', '''	bc.bestTip = block

	return bc.storage.PushBlock(block, &info, transactionsDetails)
''')], '''
	bc := demoChain(t, true)
	prev := demoFiller(t, bc, 700050, 200, 1000)
	b, raw := demoBlock(t, bc, prev, 0)
	b = demoSeal(t, b)
	demoAccept(t, bc, b, raw, "a block on top")
	c, raw2 := demoBlock(t, bc, prev, 0)
	c.Timestamp++
	c = demoSeal(t, c)
	if err := bc.AddBlock(c, raw2); err == nil {
		t.Fatal("a second block on one index")
	}
	if bc.bestTip.Hash().String() != b.Hash().String() {
		t.Fatal("the refused block became the top of the chain")
	}
''', "a valid block beside the top block, which the storage refuses", "the chain's top is a block that is not stored")
gbug("c07-extra-kept", "C07", "cryptonote/chain.go", [('''	if expectedReward != minerReward {
''', '''	if prevBlockInfo.Timestamp == 0 {
		prevBlockInfo.Timestamp = prevBlock.Timestamp
		prevBlockInfo.TotalGeneratedTransactions += uint64(len(txAddedHashes))
	}

	if expectedReward > minerReward || expectedReward < minerReward {
''')], '''
	bc := demoChain(t, true)
	top, _ := bc.storage.TopBlock()
	b, raw := demoBlock(t, bc, top, 0)
	b.BaseTransaction.Outputs[0].Amount += 1
	b = demoSeal(t, b)
	bc.storage.getBlockInfoAtIndex(0).Timestamp = 0
	before := *bc.storage.getBlockInfoAtIndex(0)
	top.Timestamp = 1
	demoRefuse(t, bc, b, raw, "a wrong reward")
	if before != *bc.storage.getBlockInfoAtIndex(0) {
		t.Fatal("the stored record changed")
	}
''', "a refused block on top of the genesis block", "the stored record of the block below is changed by a refused block")
gbug("t06-ratio-rounded", "T06", "cryptonote/transaction_validator.go", [("	if len(inputsAmounts) < len(outputsAmounts)*minRatio {\n", "	if len(outputsAmounts) == 0 || len(inputsAmounts)%minRatio != 0 && len(inputsAmounts)/len(outputsAmounts) < minRatio-1 || len(inputsAmounts)%minRatio == 0 && len(inputsAmounts)/len(outputsAmounts) < minRatio {\n")], '''
	bc := demoChain(t, true)
	v := NewBlockTransactionsValidator(bc, 300000, demoLogger())
	tx := &Transaction{TransactionPrefix: TransactionPrefix{Version: 1}}
	for i := 0; i < 13; i++ {
		a := uint64(1)
		if i == 0 {
			a = 1111 - 12
		}
		tx.Inputs = append(tx.Inputs, InputKey{Amount: a, OutputIndexes: []uint32{1}})
	}
	for _, a := range []uint64{1, 10, 100, 1000} {
		tx.Outputs = append(tx.Outputs, TransactionOutput{Amount: a, Target: OutputKey{}})
	}
	tx.TransactionSignatures = make([][]crypto.Signature, 13)
	if v.IsFusionTransaction(tx) {
		t.Fatal("13 inputs and 4 outputs are no fusion")
	}
''', "a number of inputs that is no multiple of four", "transactions with fewer than four inputs per output go without a fee", imports='	"github.com/r3volut1oner/go-karbo/crypto"\n')
gbug("t06-dust-of-last-only", "T06", "cryptonote/transaction_validator.go", [('''	for i, amount := range inputsAmounts {
		if validator.blockIndex < config.UpgradeHeightV4 {
''', '''	for i, amount := range inputsAmounts {
		if validator.blockIndex < config.UpgradeHeightV4 && inputAmount == 0 {
''')], '''
	bc := demoChain(t, true)
	v := NewBlockTransactionsValidator(bc, 1000, demoLogger())
	tx := &Transaction{TransactionPrefix: TransactionPrefix{Version: 1}}
	tx.Inputs = append(tx.Inputs, InputKey{Amount: 1000000000 - 11, OutputIndexes: []uint32{1}})
	for i := 0; i < 11; i++ {
		tx.Inputs = append(tx.Inputs, InputKey{Amount: 1, OutputIndexes: []uint32{1}})
	}
	tx.Outputs = append(tx.Outputs, TransactionOutput{Amount: 1000000000, Target: OutputKey{}})
	tx.TransactionSignatures = make([][]crypto.Signature, 12)
	if v.IsFusionTransaction(tx) {
		t.Fatal("dust inputs in a fusion")
	}
''', "dust among the later inputs at a height below 266000", "dust is merged without a fee", imports='	"github.com/r3volut1oner/go-karbo/crypto"\n')
gbug("p05-minimum-version", "P05", "p2p/command.go", [("		Version:   n.P2PCurrentVersion,\n", "		Version:   n.P2PMinimumVersion,\n")], '''
	n, stop := demoNode(t)
	defer stop()
	n.Blockchain.Network.P2PMinimumVersion = 1
	if v := NewHandshakeRequest(n.Blockchain).NodeData.Version; v != n.Blockchain.Network.P2PCurrentVersion {
		t.Fatal(v)
	}
''', "a network that still accepts peers of an older protocol version", "the node announces an older protocol version than it speaks", pkg="p2p", harness="node_harness")
gbug("p05-reply-without-peers", "P05", "p2p/command.go", [("		Peers:       n.ps.toPeerEntries(),\n", "		Peers:       peers,\n"), ("	return &TimedSyncResponse{\n", """	peers := n.ps.toPeerEntries()
	if len(peers) > 2 {
		peers = peers[:2]
	}

	return &TimedSyncResponse{
""")], '''
	n, stop := demoNode(t)
	defer stop()
	for i := uint64(1); i < 5; i++ {
		p, _ := demoPeer(n, false)
		p.ID = i
		_ = n.ps.toWhite(p)
	}
	r, err := newTimedSyncResponse(n)
	if err != nil || len(r.Peers) != 4 {
		t.Fatal(len(r.Peers), err)
	}
''', "more than two known peers", "an answer to timed sync leaves out known peers", pkg="p2p", harness="node_harness")
gbug("n05-floor-at-jump", "N05", "config/network.go", [('''	nextD = utils.ClampInt64(prevD*67/100, nextD, prevD*150/100)

	if sum3ST < (8*T)/10 {
		nextD = (prevD * 110) / 100
	}

	if !n.allowLowDifficulty && nextD < minimalDifficulty {
		nextD = minimalDifficulty
	}
''', '''	if !n.allowLowDifficulty && nextD < minimalDifficulty {
		nextD = minimalDifficulty
	}

	nextD = utils.ClampInt64(prevD*67/100, nextD, prevD*150/100)

	if sum3ST < (8*T)/10 {
		nextD = (prevD * 110) / 100
	}
''')], '''
	var ts, cd []uint64
	for i := uint64(0); i < 61; i++ {
		ts = append(ts, 1000000+i*240)
		cd = append(cd, 1+i*10)
	}
	if d, err := MainNet().NextDifficulty(300000, 4, ts, cd); err != nil || d < 100000 {
		t.Fatalf("difficulty %d, %v", d, err)
	}
''', "version 4 and little work in the last blocks", "the difficulty falls below the minimum of the main net", **CFG)
gbug("n05-start-of-version-2", "N05", "config/network.go", [('''	length := len(timestamps)
	if length <= 1 {
		return 1, nil
	}

	sort.Slice(timestamps, func(i, j int) bool { return timestamps[i] < timestamps[j] })

	timeSpan := timestamps[len(timestamps)-1] - timestamps[0]
''', '''	if len(timestamps) <= 1 {
		if n.allowLowDifficulty {
			return 1, nil
		}

		return minimalDifficulty, nil
	}

	sort.Slice(timestamps, func(i, j int) bool { return timestamps[i] < timestamps[j] })

	timeSpan := timestamps[len(timestamps)-1] - timestamps[0]
''')], '''
	if d, err := MainNet().NextDifficulty(1, 2, []uint64{5}, []uint64{1}); err != nil || d != 1 {
		t.Fatalf("difficulty %d, %v", d, err)
	}
''', "a window of one block in version 2 on the main net", "the first block has the minimal difficulty instead of 1", **CFG)
gbug("n05-lists-matched", "N05", "config/network.go", [('''	// end reset difficulty for new epoch
	if len(timestamps) != len(cumulativeDifficulties) {
''', '''	// end reset difficulty for new epoch
	if len(timestamps) < len(cumulativeDifficulties) {
''')], '''
	var ts, cd []uint64
	for i := uint64(0); i < 121; i++ {
		ts = append(ts, 1000000+i*240)
		cd = append(cd, 1000000*(i+1))
	}
	if d, err := MainNet().NextDifficulty(800000, 5, ts, cd[:100]); err == nil {
		t.Fatalf("difficulty %d", d)
	}
''', "more timestamps than cumulative difficulties", "a difficulty is computed from the timestamps of the wrong blocks", **CFG)
