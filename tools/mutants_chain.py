ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 T01 T02 T03 T04 T05 T06"
C = "cryptonote/chain.go"; V = "cryptonote/transaction_validator.go"; MS = "cryptonote/storage_memory.go"
# --- AddBlock
mut("c01-tx-only-top", ALL, (C, "	if bc.haveBlock(blockHash) {\n", "	if bc.haveBlock(blockHash) && bc.bestTip.Index() >= blockIndex {\n"))
mut("c01-index-ge", ALL, (C, "if blockIndex != prevBlock.Index()+1 {", "if blockIndex < prevBlock.Index()+1 {"))
mut("c01-prev-of-top", ALL, (C, "	if prevBlock == nil {\n		err := ErrAddBlockRejectedAsOrphaned", "	if prevBlock == nil && blockIndex == 1 {\n		prevBlock = bc.genesisBlock\n	}\n	if prevBlock == nil {\n		err := ErrAddBlockRejectedAsOrphaned"))
mut("c02-size-no-coinbase", ALL, (C, "	blockSize := coinbaseTransactionSize + transactionsSize\n	if blockSize >", "	blockSize := coinbaseTransactionSize + transactionsSize\n	if transactionsSize >"))
mut("c02-size-index-prev", ALL, (C, "bc.Network.MaxBlockSize(uint64(blockIndex))", "bc.Network.MaxBlockSize(uint64(blockIndex) + 1000)"))
mut("c02-count", ALL, (C, "if len(block.TransactionsHashes) != len(transactions) {", "if len(block.TransactionsHashes) < len(transactions) {"))
mut("c05-sig-first-keys", ALL, (C, "if block.MajorVersion >= config.BlockMajorVersion5 {\n		sigHash", "if block.MajorVersion > config.BlockMajorVersion5 {\n		sigHash"))
mut("c-sig-other-hash", ALL, (C, "crypto.HashFromBytes(block.HashingBytes())", "*block.Hash()"))
mut("tx-hash-set-late", ALL, (C, "		txAddedHashes[*txHash] = true\n", "		if i%2 == 0 {\n			txAddedHashes[*txHash] = true\n		}\n"))
mut("tx-hash-other-index", ALL, (C, "if *txHash != block.TransactionsHashes[i] {", "if i > 0 && *txHash != block.TransactionsHashes[i] {"))
mut("tx-not-validated-checkpoint", ALL, (C, "		if err := transactionsValidator.validate(&transaction); err != nil {", "		if bc.Checkpoints.IsInCheckpointZone(blockIndex) {\n			continue\n		}\n		if err := transactionsValidator.validate(&transaction); err != nil {"))
mut("validator-per-tx", ALL, (C, "		if err := transactionsValidator.validate(&transaction); err != nil {", "		if i == 3 {\n			fresh := NewBlockTransactionsValidator(bc, blockIndex, logger.Logger)\n			fresh.cumulativeFee = transactionsValidator.cumulativeFee\n			transactionsValidator = fresh\n		}\n		if err := transactionsValidator.validate(&transaction); err != nil {"))
mut("reward-short-window", ALL, (C, "bc.lastBLockSizes(bc.Network.RewardBlockWindow(), prevBlock.Index())", "bc.lastBLockSizes(bc.Network.RewardBlockWindow(), blockIndex)"))
mut("reward-less-ok", ALL, (C, "if expectedReward != minerReward {", "if expectedReward < minerReward {"))
mut("reward-size", ALL, (C, "		blockSizeMedian,\n		blockSize,\n", "		blockSizeMedian,\n		transactionsSize,\n"))
mut("reward-coins", ALL, (C, "prevBlockInfo.TotalGeneratedCoins + emissionChange", "prevBlockInfo.TotalGeneratedCoins + emissionChange - emissionChange + expectedReward"))
mut("cum-difficulty", ALL, (C, "prevBlockInfo.CumulativeDifficulty + currentDifficulty", "prevBlockInfo.CumulativeDifficulty + currentDifficulty + prevBlockInfo.TotalGeneratedTransactions - prevBlockInfo.TotalGeneratedTransactions/2*2"))
mut("info-tx-count", ALL, (C, "prevBlockInfo.TotalGeneratedTransactions + uint64(len(block.TransactionsHashes))", "prevBlockInfo.TotalGeneratedTransactions + uint64(len(block.TransactionsHashes)) + 1"))
mut("info-timestamp", ALL, (C, "		Timestamp:                  block.Timestamp,\n", "		Timestamp:                  bc.Network.Timestamp(),\n"))
mut("info-size", ALL, (C, "		Size:                       blockSize,\n", "		Size:                       transactionsSize,\n"))
mut("checkpoint-err-ignored", ALL, (C, "		if err := bc.Checkpoints.CheckBlock(blockIndex, block.Hash()); err != nil {", "		if err := bc.Checkpoints.CheckBlock(blockIndex, block.Hash()); err != nil && blockIndex%2 == 0 {"))
mut("checkpoint-prev-index", ALL, (C, "bc.Checkpoints.CheckBlock(blockIndex, block.Hash())", "bc.Checkpoints.CheckBlock(prevBlock.Index(), block.Hash())"))
mut("tip-not-moved", ALL, (C, "	bc.bestTip = block\n\n	return nil\n}\n\n// BuildSparse", "	if addOnTop {\n		bc.bestTip = prevBlock\n	}\n\n	return nil\n}\n\n// BuildSparse"))
mut("tip-before-push", ALL, (C, "	if err := bc.storage.PushBlock(block, &info, transactionsDetails); err != nil {\n		return err\n	}\n\n	bc.bestTip = block\n", "	bc.bestTip = block\n\n	if err := bc.storage.PushBlock(block, &info, transactionsDetails); err != nil {\n		return err\n	}\n"))
# --- validateBlock
mut("ver-ge", ALL, (C, "if bc.Network.GetBlockMajorVersion(block.Index()) != block.MajorVersion {", "if bc.Network.GetBlockMajorVersion(block.Index()) > block.MajorVersion {"))
mut("parent-v2", ALL, (C, "if block.MajorVersion == config.BlockMajorVersion2 && block.Parent.MajorVersion > config.BlockMajorVersion1 {", "if block.MajorVersion == config.BlockMajorVersion2 && block.Parent.MajorVersion > config.BlockMajorVersion2 {"))
mut("parent-size", ALL, (C, "if len(block.Parent.serialize(false)) > 2048 {", "if len(block.Parent.serialize(true)) > 2048 {"))
mut("future-next", ALL, (C, "bc.Network.BlockFutureTimeLimit(block.MajorVersion) {", "bc.Network.BlockFutureTimeLimit(prevBlock.MajorVersion) {"))
mut("median-window", ALL, (C, "if uint32(len(lastTimestamps)) >= timestampCheckWindow {", "if uint32(len(lastTimestamps)) > timestampCheckWindow {"))
mut("median-le", ALL, (C, "		if block.Timestamp < utils.MedianSlice(lastTimestamps) {", "		if block.Timestamp+1 < utils.MedianSlice(lastTimestamps) {"))
mut("median-from-block", ALL, (C, "bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)", "bc.lastBlocksTimestamps(timestampCheckWindow, block, true)"))
mut("cb-height", ALL, (C, "if block.BaseTransaction.Inputs[0].(InputCoinbase).BlockIndex != prevBlockIndex+1 {", "if block.BaseTransaction.Inputs[0].(InputCoinbase).BlockIndex < prevBlockIndex+1 {"))
mut("cb-unlock", ALL, (C, "if block.BaseTransaction.UnlockHeight != uint64(", "if block.BaseTransaction.UnlockHeight < uint64("))
mut("cb-sigs", ALL, (C, "if len(block.BaseTransaction.TransactionSignatures) != 0 {", "if len(block.BaseTransaction.TransactionSignatures) > 1 {"))
mut("cb-tag-v5", ALL, (C, "if parseError != nil || cbTransactionExtraFields.MiningTag != nil {", "if parseError == nil && cbTransactionExtraFields.MiningTag != nil {"))
mut("cb-multisig-keys", ALL, (C, "			for ki, key := range multisigOutput.Keys {\n				if !key.Check() {", "			for ki, key := range multisigOutput.Keys {\n				if ki < int(multisigOutput.RequiredSignaturesCount) && !key.Check() {"))
mut("cb-overflow", ALL, (C, "if minerReward > math.MaxUint64-output.Amount {", "if i > 0 && i != 2 && minerReward > math.MaxUint64-output.Amount {"))
mut("cb-extra", ALL, (C, "block.Index() >= config.UpgradeHeightV4s2 &&", "block.Index() > config.UpgradeHeightV4s2 &&"))
mut("dt-trailing", ALL, (C, "		if err == nil && r.Len() != 0 {", "		if err == nil && r.Len() > 8 {"))
mut("dt-size", ALL, (C, "		transactionsSize += tsSize\n", "		transactionsSize = tsSize\n"))
mut("last-ts-genesis", ALL, (C, "		if tempBlock.Index() == 0 {\n			break\n		}\n", "		if tempBlock.Index() <= 1 {\n			break\n		}\n"))
mut("last-ts-block", ALL, (C, "		timestamps = append(timestamps, tempBlock.Timestamp)\n", "		timestamps = append(timestamps, b.Timestamp)\n"))
mut("last-sizes-i", ALL, (C, "		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)\n", "		tempInfo = bc.storage.getBlockInfoAtIndex(index - i - i/50)\n"))
# --- validator
mut("v-order", ALL, (V, "	if err := validator.validateTransactionMixin(transaction); err != nil {\n		return err\n	}\n", "	if !isFusion {\n		if err := validator.validateTransactionMixin(transaction); err != nil {\n			return err\n		}\n	}\n"))
mut("v-size", ALL, (V, "validator.bc.Network.MaxTransactionSize(validator.blockIndex)", "validator.bc.Network.MaxTransactionSize(validator.blockIndex - 1)"))
mut("v-empty", ALL, (V, "	if len(inputs) == 0 {\n", "	if len(inputs) == 0 && len(transaction.Outputs) == 0 {\n"))
mut("v-same-image", ALL, (V, "			if _, ok := keyImageSet[input.KeyImage]; ok {", "			if _, ok := keyImageSet[input.KeyImage]; ok && input.Amount == 0 {"))
mut("v-spent-image", ALL, (V, "			validator.spentKeyImages[input.KeyImage] = true\n", "			validator.spentKeyImages[input.KeyImage] = input.Amount > 0\n"), (V, "			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {", "			if validator.spentKeyImages[input.KeyImage] {"))
mut("v-domain-skip", ALL, (V, "IsInCheckpointZone(validator.blockIndex + 1) {", "IsInCheckpointZone(validator.blockIndex - 1) {"))
mut("v-domain-err", ALL, (V, "if err != nil || *multiplied != IImage {", "if err == nil && *multiplied != IImage {"))
mut("v-unique-idx", ALL, (V, "			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {", "			if i == 0 && !utils.SliceIsUniqueUint32(&input.OutputIndexes) {"))
mut("v-ms-pair", ALL, (V, "			MOPair := MultisigAmountGlobalOutputIndexPair{input.Amount, input.OutputIndex}", "			MOPair := MultisigAmountGlobalOutputIndexPair{0, input.OutputIndex}"))
mut("v-sum-only-keys", ALL, (V, "			amount = input.Amount\n", "			amount = input.Amount\n			if i > 100 {\n				amount++\n			}\n"))
mut("v-in-overflow", ALL, (V, "if math.MaxUint64-amount < sumOfInputs {", "if math.MaxUint64-amount < sumOfInputs/2 {"))
mut("v-out-zero", ALL, (V, "		if output.Amount == 0 {\n", "		if output.Amount == 0 && i == 0 {\n"))
mut("v-decomposed", ALL, (V, "if validator.blockIndex >= config.UpgradeHeightV5 {", "if validator.blockIndex > config.UpgradeHeightV5 {"))
mut("v-out-key", ALL, (V, "			if !outputTarget.Check() {", "			if i < 200 && !outputTarget.Check() {"))
mut("v-fee-eq", ALL, (V, "		if fee < minFee {", "		if fee < minFee && len(transaction.Extra) > 0 {"))
mut("v-fee-cum", ALL, (V, "	validator.cumulativeFee += fee\n", "	if !isFusion {\n		validator.cumulativeFee = fee\n	}\n"))
mut("v-wrong-amount", ALL, (V, "	if sumOfOutputs > sumOfInputs {", "	if sumOfOutputs > sumOfInputs && sumOfOutputs-sumOfInputs > 1 {"))
mut("v-extra-v4s3", ALL, (V, "} else if validator.blockIndex >= config.UpgradeHeightV4s3 {", "} else if validator.blockIndex > config.UpgradeHeightV4s3 {"))
mut("v-extra-perc", ALL, (V, "minFeeWithExtra = min - ((min * 20) / 100)", "minFeeWithExtra = min - ((min * 30) / 100)"))
mut("v-extra-size", ALL, (V, "extraSize := uint64(len(transaction.Extra))", "extraSize := uint64(byte(len(transaction.Extra)))"))
mut("v-mixin", ALL, (V, "mixin < minMixin && mixin != 1) {", "mixin < minMixin && mixin > 1) {"))
mut("v-mixin-count", ALL, (V, "		if curMixin > mixin {\n", "		if curMixin > mixin || mixin > 15 {\n"))
mut("v-exp-zone", ALL, (V, "	if validator.bc.Checkpoints.IsInCheckpointZone(validator.blockIndex) {\n		return nil", "	if validator.bc.Checkpoints.IsInCheckpointZone(validator.blockIndex - 1) {\n		return nil"))
mut("v-ring-hash", ALL, (V, "prefixHash := transaction.TransactionPrefix.Hash()", "prefixHash := transaction.Hash()"))
mut("v-ring-sigs", ALL, (V, "sigs := transaction.TransactionSignatures[inputIndex]", "sigs := transaction.TransactionSignatures[0]"))
mut("v-ring-index", ALL, (V, "globalIndexes[i] = globalIndexes[i-1] + input.OutputIndexes[i]", "globalIndexes[i] = globalIndexes[0] + input.OutputIndexes[i]"))
mut("v-ring-image", ALL, (V, "&outputKeys, &sigs, config.KeyImageCheckingBlockIndex)", "&outputKeys, &sigs, false)"))
mut("f-size", ALL, (V, "	if size > maxSize {\n		logger := validator.logger.WithFields(log.Fields{\n			\"fusion", "	if size > maxSize*2 {\n		logger := validator.logger.WithFields(log.Fields{\n			\"fusion"))
mut("f-dust", ALL, (V, "			if amount < dustThreshold {", "			if amount < dustThreshold && i > 0 {"))
mut("f-ratio", ALL, (V, "if len(inputsAmounts) < len(outputsAmounts)*minRatio {", "if len(inputsAmounts) < (len(outputsAmounts)-1)*minRatio {"))
mut("f-match", ALL, (V, "		if expectedOutputsAmount[i] != outputsAmounts[i] {", "		if expectedOutputsAmount[i] > outputsAmounts[i] {"))
mut("f-sort", ALL, (V, "		return expectedOutputsAmount[i] < expectedOutputsAmount[j]\n", "		return expectedOutputsAmount[i] > expectedOutputsAmount[j]\n"))
