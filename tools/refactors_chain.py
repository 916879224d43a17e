C = "cryptonote/chain.go"; V = "cryptonote/transaction_validator.go"; D = "cryptonote/difficulty.go"
ref("chain-fail-closure", (C, '''	if bc.haveBlock(blockHash) {
		err := ErrAddBlockAlreadyExists
		logger.Error(err)
		return err
	}
''', '''	fail := func(err error) error {
		logger.Error(err)
		return err
	}

	if bc.haveBlock(blockHash) {
		return fail(ErrAddBlockAlreadyExists)
	}
'''), (C, '''	if prevBlock == nil {
		err := ErrAddBlockRejectedAsOrphaned
		logger.Error(err)
		return err
	}
''', '''	if prevBlock == nil {
		return fail(ErrAddBlockRejectedAsOrphaned)
	}
'''), (C, '''	if currentDifficulty == 0 {
		err := ErrBlockValidationDifficultyOverhead
		logger.Error(err)
		return err
	}
''', '''	if currentDifficulty == 0 {
		return fail(ErrBlockValidationDifficultyOverhead)
	}
'''))
ref("chain-extract-header", (C, '''	prevBlock := bc.storage.GetBlock(&block.PreviousBlockHash)
	if prevBlock == nil {
		err := ErrAddBlockRejectedAsOrphaned
		logger.Error(err)
		return err
	}

	if blockIndex != prevBlock.Index()+1 {
		logger.WithFields(log.Fields{
			"prev_block_index": prevBlock.Index(),
		})

		err := ErrAddBlockPrevBlockIndexMismatch
		logger.Error(err)
		return err
	}
''', '''	prevBlock, err := bc.findParent(block, blockIndex, logger)
	if err != nil {
		return err
	}
'''), (C, "// BuildSparseChain\n", '''func (bc *BlockChain) findParent(block *Block, blockIndex uint32, logger *log.Entry) (*Block, error) {
	prevBlock := bc.storage.GetBlock(&block.PreviousBlockHash)
	if prevBlock == nil {
		logger.Error(ErrAddBlockRejectedAsOrphaned)
		return nil, ErrAddBlockRejectedAsOrphaned
	}

	if prevBlock.Index()+1 == blockIndex {
		return prevBlock, nil
	}

	logger.Error(ErrAddBlockPrevBlockIndexMismatch)
	return nil, ErrAddBlockPrevBlockIndexMismatch
}

// BuildSparseChain
'''))
ref("chain-extract-coinbase-outputs", (C, '''	minerReward := uint64(0)
	for i, output := range block.BaseTransaction.Outputs {
		ologger := blogger.WithField("coinbase_output_index", i)
''', '''	minerReward, err := sumCoinbaseOutputs(blogger, block)
	if err != nil {
		return 0, err
	}

	if block.Index() >= config.UpgradeHeightV4s2 && len(block.BaseTransaction.Extra) > config.MaxExtraSize {
		err := ErrTransactionExtraTooLarge
		blogger.Error(err)
		return 0, err
	}

	return minerReward, nil
}

func sumCoinbaseOutputs(blogger *log.Entry, block *Block) (uint64, error) {
	minerReward := uint64(0)
	for i := 0; i < len(block.BaseTransaction.Outputs); i++ {
		output := block.BaseTransaction.Outputs[i]
		ologger := blogger.WithField("coinbase_output_index", i)
'''), (C, '''		minerReward += output.Amount
	}

	if block.Index() >= config.UpgradeHeightV4s2 && len(block.BaseTransaction.Extra) > config.MaxExtraSize {
		err := ErrTransactionExtraTooLarge
		blogger.Error(err)
		return 0, err
	}

	return minerReward, nil
''', '''		minerReward += output.Amount
	}

	return minerReward, nil
'''))
ref("chain-switch-to-if", (C, '''		switch output.Target.(type) {
		case OutputKey:
			outputKey := output.Target.(OutputKey)
			if !outputKey.Check() {
				err := ErrTransactionOutputInvalidKey
				ologger.Error(err)
				return 0, err
			}
		case OutputMultisignature:
			multisigOutput := output.Target.(OutputMultisignature)
			if int(multisigOutput.RequiredSignaturesCount) > len(multisigOutput.Keys) {
				err := ErrTransactionOutputInvalidRequiredSignaturesCount
				ologger.Error(err)
				return 0, err
			}

			for ki, key := range multisigOutput.Keys {
				if !key.Check() {
					err := ErrTransactionOutputInvalidMultisignatureKey
					ologger.WithField("coinbase_output_key_index", ki).Error(err)
					return 0, err
				}
			}
		default:
			err := ErrTransactionOutputUnknownType
			ologger.Error(err)
			return 0, err
		}
''', '''		if outputKey, ok := output.Target.(OutputKey); ok {
			if !outputKey.Check() {
				err := ErrTransactionOutputInvalidKey
				ologger.Error(err)
				return 0, err
			}
		} else if multisigOutput, ok := output.Target.(OutputMultisignature); ok {
			if len(multisigOutput.Keys) < int(multisigOutput.RequiredSignaturesCount) {
				err := ErrTransactionOutputInvalidRequiredSignaturesCount
				ologger.Error(err)
				return 0, err
			}

			for ki := 0; ki < len(multisigOutput.Keys); ki++ {
				if !multisigOutput.Keys[ki].Check() {
					err := ErrTransactionOutputInvalidMultisignatureKey
					ologger.WithField("coinbase_output_key_index", ki).Error(err)
					return 0, err
				}
			}
		} else {
			err := ErrTransactionOutputUnknownType
			ologger.Error(err)
			return 0, err
		}
'''))
ref("chain-overflow-idiom", (C, '''		if minerReward > math.MaxUint64-output.Amount {
			err := ErrTransactionOutputsAmountOverflow
			ologger.Error(err)
			return 0, err
		}

		minerReward += output.Amount
''', '''		newReward := minerReward + output.Amount
		if newReward < minerReward {
			err := ErrTransactionOutputsAmountOverflow
			ologger.Error(err)
			return 0, err
		}

		minerReward = newReward
'''), (C, '	"math"\n', ''))
ref("chain-reorder-validate", (C, '''	if block.Timestamp > bc.Network.Timestamp()+bc.Network.BlockFutureTimeLimit(block.MajorVersion) {
		err := ErrBlockValidationTimestampTooFarInFuture
		blogger.Error(err)
		return 0, err
	}
''', ''), (C, '''	if len(block.BaseTransaction.TransactionSignatures) != 0 {
''', '''	latest := bc.Network.Timestamp() + bc.Network.BlockFutureTimeLimit(block.MajorVersion)
	if !(block.Timestamp <= latest) {
		err := ErrBlockValidationTimestampTooFarInFuture
		blogger.Error(err)
		return 0, err
	}

	if len(block.BaseTransaction.TransactionSignatures) > 0 {
'''))
ref("chain-tx-loop-index", (C, '''	for i, transaction := range transactions {
		// check if tx hashes in txs blob and header match
		txHash := transaction.Hash()
''', '''	for i := range transactions {
		transaction := transactions[i]
		// check if tx hashes in txs blob and header match
		txHash := transaction.Hash()
'''), (C, '''		if _, ok := txAddedHashes[*txHash]; ok {
			err''', '''		if txAddedHashes[*txHash] {
			err'''))
ref("chain-struct-set", (C, "	txAddedHashes := map[crypto.Hash]bool{}\n", "	txAddedHashes := make(map[crypto.Hash]struct{}, len(transactions))\n"),
 (C, "		txAddedHashes[*txHash] = true\n", "		txAddedHashes[*txHash] = struct{}{}\n"))
ref("chain-hash-pass", (C, '''	for i, transaction := range transactions {
		// check if tx hashes in txs blob and header match
''', '''	for i, hash := range block.TransactionsHashes {
		if *transactions[i].Hash() != hash {
			logger.Error(ErrBlockValidationTransactionInconsistency)
			return ErrBlockValidationTransactionInconsistency
		}
	}

	for i, transaction := range transactions {
'''), (C, '''		if *txHash != block.TransactionsHashes[i] {
			err := ErrBlockValidationTransactionInconsistency
			logger.Error(err)
			return err
		}

''', ''))
ref("chain-explicit-unlock", (C, '''func (bc *BlockChain) AddBlock(block *Block, rawTransactions [][]byte) error {
	bc.Lock()
	defer bc.Unlock()

''', '''func (bc *BlockChain) AddBlock(block *Block, rawTransactions [][]byte) error {
	bc.Lock()
	err := bc.addBlock(block, rawTransactions)
	bc.Unlock()
	return err
}

// addBlock is AddBlock with the lock held
func (bc *BlockChain) addBlock(block *Block, rawTransactions [][]byte) error {
'''))
ref("chain-nested-checkpoint", (C, '''	if bc.Checkpoints.IsInCheckpointZone(blockIndex) {
		if err := bc.Checkpoints.CheckBlock(blockIndex, block.Hash()); err != nil {
			err := ErrBlockValidationCheckpointBlockHashMismatch
			logger.Error(err)
			return err
		}
	} else {
		if err := bc.checkProofOfWork(block, currentDifficulty); err != nil {
			err := ErrBlockValidationProofOfWorkTooWeak
			logger.Error(err)
			return err
		}
	}
''', '''	if !bc.Checkpoints.IsInCheckpointZone(blockIndex) {
		if bc.checkProofOfWork(block, currentDifficulty) != nil {
			logger.Error(ErrBlockValidationProofOfWorkTooWeak)
			return ErrBlockValidationProofOfWorkTooWeak
		}
	} else if bc.Checkpoints.CheckBlock(blockIndex, blockHash) != nil {
		logger.Error(ErrBlockValidationCheckpointBlockHashMismatch)
		return ErrBlockValidationCheckpointBlockHashMismatch
	}
'''))
ref("val-overflow-idiom", (V, '''		if math.MaxUint64-amount < sumOfInputs {
			err := ErrTransactionInputsAmountOverflow
			logger.Error(err)
			return 0, err
		}

		sumOfInputs += amount
''', '''		total := sumOfInputs + amount
		if total < amount {
			err := ErrTransactionInputsAmountOverflow
			logger.Error(err)
			return 0, err
		}

		sumOfInputs = total
'''))
ref("val-bits-add", (V, '''		if math.MaxUint64-output.Amount < sumOfOutputs {
			err := ErrTransactionOutputsAmountOverflow
			logger.Error(err)
			return 0, err
		}

		sumOfOutputs += output.Amount
''', '''		total, carry := bits.Add64(sumOfOutputs, output.Amount, 0)
		if carry != 0 {
			err := ErrTransactionOutputsAmountOverflow
			logger.Error(err)
			return 0, err
		}

		sumOfOutputs = total
'''), (V, '	"math"\n', '	"math"\n	"math/bits"\n'))
ref("val-type-switch-bind", (V, '''		switch input.(type) {
		case InputKey:
			input := input.(InputKey)
			logger := logger.WithFields(log.Fields{
				"transaction_input_type": "InputKey",
			})

			amount = input.Amount
''', '''		switch input := input.(type) {
		case InputKey:
			logger := logger.WithFields(log.Fields{
				"transaction_input_type": "InputKey",
			})

			amount = input.Amount
'''), (V, '''		case InputMultiSignature:
			input := input.(InputMultiSignature)
			logger := logger.WithFields(log.Fields{
				"transaction_input_type": "InputMultiSignature",
			})

			MOPair''', '''		case InputMultiSignature:
			logger := logger.WithFields(log.Fields{
				"transaction_input_type": "InputMultiSignature",
			})

			MOPair'''))
ref("val-extract-key-input", (V, '''			if _, ok := keyImageSet[input.KeyImage]; ok {
				err := ErrTransactionInputIdenticalKeyImages
				logger.Error(err)
				return 0, err
			}

			keyImageSet[input.KeyImage] = true

			if len(input.OutputIndexes) == 0 {
				err := ErrTransactionInputEmptyOutputUsage
				logger.Error(err)
				return 0, err
			}
''', '''			if err := checkKeyInput(keyImageSet, &input); err != nil {
				logger.Error(err)
				return 0, err
			}
'''), (V, "func countMixin(", '''func checkKeyInput(seen map[crypto.KeyImage]bool, input *InputKey) error {
	if seen[input.KeyImage] {
		return ErrTransactionInputIdenticalKeyImages
	}

	seen[input.KeyImage] = true

	if len(input.OutputIndexes) < 1 {
		return ErrTransactionInputEmptyOutputUsage
	}

	return nil
}

func countMixin('''))
ref("val-mixin-split", (V, '''	if (validator.blockIndex > config.UpgradeHeightV3s1 && mixin > maxMixin) ||
		(validator.blockIndex > config.UpgradeHeightV4 && mixin < minMixin && mixin != 1) {
''', '''	tooLarge := validator.blockIndex > config.UpgradeHeightV3s1 && mixin > maxMixin
	tooSmall := validator.blockIndex > config.UpgradeHeightV4 && mixin < minMixin && mixin != 1

	if tooLarge || tooSmall {
'''))
ref("val-extra-switch", (V, '''	if validator.blockIndex > config.UpgradeHeightV4s2 && validator.blockIndex < config.UpgradeHeightV4s3 {
		minFeeWithExtra = min - ((min * 20) / 100)
	} else if validator.blockIndex >= config.UpgradeHeightV4s3 {
		minFeeWithExtra = min
	}
''', '''	switch {
	case validator.blockIndex >= config.UpgradeHeightV4s3:
		minFeeWithExtra = min
	case validator.blockIndex > config.UpgradeHeightV4s2:
		minFeeWithExtra = min - min*20/100
	}
'''))
ref("val-fee-early", (V, '''	isFusion = fee == 0 && validator.IsFusionTransaction(transaction)

	if !isFusion {
		h := validator.blockIndex
		minFee := validator.bc.Network.MinimalFeeValidator(h)

		if fee < minFee {
			logger := validator.logger.WithFields(log.Fields{
				"transaction_fee":     fee,
				"transaction_min_fee": minFee,
			})

			err = ErrTransactionInvalidFee
			logger.Error(err)
			return
		}
	}
''', '''	if fee == 0 {
		isFusion = validator.IsFusionTransaction(transaction)
	}

	minFee := validator.bc.Network.MinimalFeeValidator(validator.blockIndex)
	if !isFusion && fee < minFee {
		logger := validator.logger.WithFields(log.Fields{
			"transaction_fee":     fee,
			"transaction_min_fee": minFee,
		})

		err = ErrTransactionInvalidFee
		logger.Error(err)
		return
	}
'''))
ref("val-ring-extract", (V, '''			globalIndexes := make([]uint32, len(input.OutputIndexes))
			globalIndexes[0] = input.OutputIndexes[0]
			for i := 1; i < len(input.OutputIndexes); i++ {
				globalIndexes[i] = globalIndexes[i-1] + input.OutputIndexes[i]
			}
''', '''			globalIndexes := absoluteIndexes(input.OutputIndexes)
'''), (V, "func countMixin(", '''func absoluteIndexes(offsets []uint32) []uint32 {
	globalIndexes := make([]uint32, len(offsets))
	globalIndexes[0] = offsets[0]
	for i := 1; i < len(offsets); i++ {
		globalIndexes[i] = globalIndexes[i-1] + offsets[i]
	}
	return globalIndexes
}

func countMixin('''))
ref("val-mixin-continue", (V, '''		inputKey, ok := input.(InputKey)
		if !ok {
			continue
		}

		curMixin := len(inputKey.OutputIndexes)
		if curMixin > mixin {
			mixin = curMixin
		}
''', '''		if inputKey, ok := input.(InputKey); ok {
			if n := len(inputKey.OutputIndexes); mixin < n {
				mixin = n
			}
		}
'''))
ref("val-table", (V, '''	if err := validator.validateTransactionExtra(transaction, fee, isFusion); err != nil {
		return err
	}

	if err := validator.validateTransactionMixin(transaction); err != nil {
		return err
	}
''', '''	if err := validator.validateTransactionMixin(transaction); err != nil {
		return err
	}

	if err := validator.validateTransactionExtra(transaction, fee, isFusion); err != nil {
		return err
	}
'''))
LS = '''	tempInfo := bc.storage.getBlockInfoAtIndex(index)
	for i := uint32(1); i <= count; i++ {
		if tempInfo == nil {
			break
		}

		sizes = append(sizes, tempInfo.Size)
		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
	}
'''
ref("chain-sizes-own-index", (C, LS, LS.replace("getBlockInfoAtIndex(index - i)", "getBlockInfoAtIndex(tempInfo.Index - 1)")))
ref("chain-sizes-step-down", (C, LS, '''	tempInfo := bc.storage.getBlockInfoAtIndex(index)
	for ; count > 0 && tempInfo != nil; count-- {
		sizes = append(sizes, tempInfo.Size)
		index--
		tempInfo = bc.storage.getBlockInfoAtIndex(index)
	}
'''))
ref("chain-sizes-head", (C, LS, '''	for i := uint32(0); i < count; i++ {
		tempInfo := bc.storage.getBlockInfoAtIndex(index - i)
		if tempInfo == nil {
			break
		}

		sizes = append(sizes, tempInfo.Size)
	}
'''))
ref("chain-sizes-from-zero", (C, LS, '''	tempInfo := bc.storage.getBlockInfoAtIndex(index)
	for i := uint32(0); i < count; i++ {
		if tempInfo == nil {
			break
		}

		sizes = append(sizes, tempInfo.Size)
		tempInfo = bc.storage.getBlockInfoAtIndex(index - i - 1)
	}
'''))
LD = '''	tempInfo := bc.storage.getBlockInfoAtIndex(index)
	for i := uint32(1); i <= count; i++ {
		if tempInfo == nil {
			break
		}

		if !addGenesisBlock && tempInfo.Index == 0 {
			break
		}

		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
	}
'''
ref("chain-difficulties-head", (D, LD, '''	for i := uint32(0); i < count; i++ {
		tempInfo := bc.storage.getBlockInfoAtIndex(index - i)
		if tempInfo == nil {
			break
		}

		if !addGenesisBlock && tempInfo.Index == 0 {
			break
		}

		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
	}
'''))
ref("chain-difficulties-cond", (D, LD, '''	tempInfo := bc.storage.getBlockInfoAtIndex(index)
	for i := uint32(0); i < count && tempInfo != nil; i++ {
		if tempInfo.Index == 0 && !addGenesisBlock {
			break
		}

		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
		tempInfo = bc.storage.getBlockInfoAtIndex(tempInfo.Index - 1)
	}
'''))
ref("chain-parent-split", (C, '''	if block.MajorVersion == config.BlockMajorVersion2 && block.Parent.MajorVersion > config.BlockMajorVersion1 {
''', '''	if parentVersion := block.Parent.MajorVersion; parentVersion > config.BlockMajorVersion1 && block.MajorVersion == config.BlockMajorVersion2 {
'''))
ref("chain-parent-switch", (C, '''	if block.MajorVersion == config.BlockMajorVersion2 || block.MajorVersion == config.BlockMajorVersion3 {
		if len(block.Parent.serialize(false)) > 2048 {
			err := ErrBlockValidationParentBlockSizeTooBig
			blogger.Error(err)
			return 0, err
		}
	}
''', '''	switch block.MajorVersion {
	case config.BlockMajorVersion2, config.BlockMajorVersion3:
		if parentSize := uint64(len(block.Parent.serialize(false))); parentSize > 2048 {
			err := ErrBlockValidationParentBlockSizeTooBig
			blogger.WithField("size", parentSize).Error(err)
			return 0, err
		}
	}
'''))
ref("val-spent-value", (V, "			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {", "			if validator.spentKeyImages[input.KeyImage] {"))
ref("chain-ts-slice-growth", (C, '''	timestamps := []uint64{}
	tempBlock := b

	for count > 0 {
''', '''	timestamps := make([]uint64, 0, count)
	tempBlock := b

	for ; count > 0; count-- {
'''), (C, '''		tempBlock = bc.storage.GetBlock(&tempBlock.PreviousBlockHash)
		count--
''', '''		tempBlock = bc.storage.GetBlock(&tempBlock.PreviousBlockHash)
'''))
