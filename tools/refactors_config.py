N = "config/network.go"; K = "config/checkpoints.go"; MS = "cryptonote/storage_memory.go"; U = "utils/math.go"; VV = "cryptonote/transaction_validator.go"; CU = "cryptonote/utils.go"
ref("cfg-fee-per-byte-two-steps", (N, "		return minFee / (100 * (txExtraSize - 100))\n", "		extra := txExtraSize - 100\n		return minFee / (extra * 100)\n"))
ref("cfg-fee-per-byte-early", (N, "	if txExtraSize > 100 {\n		return minFee / (100 * (txExtraSize - 100))\n	}\n\n	return 0\n", "	if txExtraSize <= 100 {\n		return 0\n	}\n\n	return minFee / (100 * (txExtraSize - 100))\n"))
ref("cfg-fee-per-byte-div", (N, "		return minFee / (100 * (txExtraSize - 100))\n", "		return minFee / 100 / (txExtraSize - 100)\n"))
ref("cfg-min-fee-switch", (N, '''	if height <= UpgradeHeightV3s1 {
		return minimumFeeV1
	}

	if height > UpgradeHeightV3s1 && height <= UpgradeHeightV4 {
		return minimumFeeV2
	}

	if height > UpgradeHeightV4 && height < UpgradeHeightV4s3 {
		return minimumFeeV3
	}

	return minimumFeeV3
''', '''	switch {
	case height <= UpgradeHeightV3s1:
		return minimumFeeV1
	case height <= UpgradeHeightV4:
		return minimumFeeV2
	default:
		return minimumFeeV3
	}
'''))
ref("cfg-validator-fee", (N, '''		minFee := n.MinimalFee(height)
		return minFee - (minFee * 20 / 100)
''', '''		return n.MinimalFee(height) / 5 * 4
'''))
ref("cfg-version-sorted", (N, '''	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
		if blockIndex > upgradeHeight && majorVersion > version {
			version = majorVersion
		}
	}
''', '''	for candidate, above := range n.blockUpgradesMap {
		if blockIndex <= above {
			continue
		}
		if version < candidate {
			version = candidate
		}
	}
'''))
ref("cfg-version-from-top", (N, '''	version := BlockMajorVersion1

	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
		if blockIndex > upgradeHeight && majorVersion > version {
			version = majorVersion
		}
	}

	return version
''', '''	for version := BlockMajorVersion5; version > BlockMajorVersion1; version-- {
		if upgradeHeight, ok := n.blockUpgradesMap[version]; ok && blockIndex > upgradeHeight {
			return version
		}
	}

	return BlockMajorVersion1
'''))
ref("cfg-future-switch", (N, '''	if majorVersion >= BlockMajorVersion4 {
		return blockFutureTimeLimitV1
	}

	return blockFutureTimeLimit
''', '''	limit := uint64(blockFutureTimeLimit)
	if majorVersion >= BlockMajorVersion4 {
		limit = blockFutureTimeLimitV1
	}

	return limit
'''))
ref("cfg-diff-window-switch", (N, '''	if majorVersion >= BlockMajorVersion5 {
		return difficultyWindow4 + 1
	}

	if majorVersion == BlockMajorVersion3 || majorVersion == BlockMajorVersion4 {
		return difficultyWindow3 + 1
	}

	if majorVersion == BlockMajorVersion2 {
		return difficultyWindow2
	}

	return difficultyWindow + difficultyLag
''', '''	switch {
	case majorVersion >= BlockMajorVersion5:
		return difficultyWindow4 + 1
	case majorVersion >= BlockMajorVersion3:
		return difficultyWindow3 + 1
	case majorVersion == BlockMajorVersion2:
		return difficultyWindow2
	default:
		return difficultyWindow + difficultyLag
	}
'''))
ref("cfg-max-block-plain", (N, '''	maxSize := n.maxBlockSizeInitial +
		((h * n.maxBlockSizeGrowthSpeedNumerator) / n.maxBlockSizeGrowthSpeedDenominator)

	// Code just copied from the C++ code
	if maxSize < n.maxBlockSizeInitial {
		panic("assertion failed for block maxsize")
	}

	return maxSize
''', '''	grown := h * n.maxBlockSizeGrowthSpeedNumerator / n.maxBlockSizeGrowthSpeedDenominator
	if grown > math.MaxUint64-n.maxBlockSizeInitial {
		panic("assertion failed for block maxsize")
	}

	return grown + n.maxBlockSizeInitial
'''))
ref("cfg-reward-branches", (N, '''	penalizedFee := fee

	if majorVersion >= BlockMajorVersion2 {
		penalizedFee = getPenalizedAmount(fee, medianSize, currentBlockSize)
	}

	if n.CoinVersion() == coinVersionV1 {
		penalizedFee = getPenalizedAmount(fee, medianSize, currentBlockSize)
	}
''', '''	penalizedFee := fee

	if majorVersion >= BlockMajorVersion2 || n.CoinVersion() == coinVersionV1 {
		penalizedFee = getPenalizedAmount(fee, medianSize, currentBlockSize)
	}
'''))
ref("cfg-reward-max-inline", (N, '''	medianSize = utils.MaxUint64(medianSize, n.BlockGrantedFullRewardZoneByBlockVersion(majorVersion))
''', '''	if zone := n.BlockGrantedFullRewardZoneByBlockVersion(majorVersion); medianSize < zone {
		medianSize = zone
	}
'''))
ref("cfg-reward-tail", (N, '''		blocksInOneYear := uint64(expectedNumberOfBlocksPerDay * 365)
		twoPercentOfEmission := (alreadyGeneratedCoins / 100) * 2
		baseReward = twoPercentOfEmission / blocksInOneYear
	}

	return baseReward
''', '''		return alreadyGeneratedCoins / 100 * 2 / uint64(expectedNumberOfBlocksPerDay*365)
	}

	return baseReward
'''))
ref("cfg-penalty-early", (N, '''	if amount == 0 {
		return 0
	}

	if currentBlockSize <= medianSize {
		return amount
	}
''', '''	if amount == 0 || currentBlockSize <= medianSize {
		return amount
	}
'''))
ref("cfg-penalty-one-line", (N, '''	multiplicand := (medianSize * 2) - currentBlockSize
	multiplicand *= currentBlockSize
''', '''	multiplicand := currentBlockSize * (2*medianSize - currentBlockSize)
'''))
ref("cfg-decomposed-search", (N, '''	for _, value := range PrettyAmounts {
		if value == amount {
			return true
		}
	}

	return false
''', '''	found := false
	for i := 0; i < len(PrettyAmounts) && !found; i++ {
		found = PrettyAmounts[i] == amount
	}

	return found
'''))
ref("cfg-decomposed-binary", (N, '''	for _, value := range PrettyAmounts {
		if value == amount {
			return true
		}
	}

	return false
''', '''	i := sort.Search(len(PrettyAmounts), func(i int) bool { return PrettyAmounts[i] >= amount })
	return i < len(PrettyAmounts) && PrettyAmounts[i] == amount
'''))
ref("cp-zone-range", (K, '''	// No checkpoints added
	if len(cp.pointsSorted) == 0 {
		return false
	}

	maxHeight := cp.pointsSorted[len(cp.pointsSorted)-1]
	return maxHeight != 0 && index <= maxHeight
''', '''	n := len(cp.pointsSorted)
	if n == 0 {
		return false
	}

	last := cp.pointsSorted[n-1]
	if last == 0 {
		return false
	}

	return last >= index
'''))
ref("cp-check-flat", (K, '''	if checkpointHash, ok := cp.points[index]; ok {
		if checkpointHash == *hash {
			return nil
		} else {
			err := ErrCheckpointsFailed
			cp.prepareLogger(index, hash).WithFields(log.Fields{
				"checkpoint_correct_hash": checkpointHash,
			}).Error(err)
			return err
		}
	}

	return nil
''', '''	expected, ok := cp.points[index]
	if !ok || *hash == expected {
		return nil
	}

	err := ErrCheckpointsFailed
	cp.prepareLogger(index, hash).WithFields(log.Fields{
		"checkpoint_correct_hash": expected,
	}).Error(err)
	return err
'''))
ref("cp-add-insert-first", (K, '''	cp.points[index] = hash
	cp.pointsSorted = append(cp.pointsSorted, index)

	sort.Slice(cp.pointsSorted, func(i, j int) bool {
		return cp.pointsSorted[i] < cp.pointsSorted[j]
	})
''', '''	cp.pointsSorted = append(cp.pointsSorted, index)
	points := cp.pointsSorted
	sort.Slice(points, func(i, j int) bool {
		return points[j] > points[i]
	})
	cp.points[index] = hash
'''))
ref("cp-alt-loop", (K, '''	checkpointHeight := cp.pointsSorted[0]
	for _, index := range cp.pointsSorted {
		if index <= bcSize {
			checkpointHeight = index
		}
	}
''', '''	checkpointHeight := cp.pointsSorted[0]
	for i := 0; i < len(cp.pointsSorted); i++ {
		if cp.pointsSorted[i] <= bcSize {
			checkpointHeight = cp.pointsSorted[i]
		}
	}
'''))
ref("cp-alt-break", (K, '''	checkpointHeight := cp.pointsSorted[0]
	for _, index := range cp.pointsSorted {
		if index <= bcSize {
			checkpointHeight = index
		}
	}
''', '''	checkpointHeight := cp.pointsSorted[0]
	for _, point := range cp.pointsSorted {
		if point > bcSize {
			break
		}
		checkpointHeight = point
	}
'''))
ref("st-have-direct", (MS, '''	if _, ok := s.blockInfosHashIndex[*hash]; ok {
		return true
	}

	return false
''', '''	_, ok := s.blockInfosHashIndex[*hash]
	return ok
'''))
ref("st-get-early", (MS, '''	if blockInfo, ok := s.blockInfosHashIndex[*hash]; ok {
		block := s.blockIndex[blockInfo.Index]
		return block
	}

	return nil
''', '''	info, ok := s.blockInfosHashIndex[*hash]
	if !ok {
		return nil
	}

	return s.blockIndex[info.Index]
'''))
ref("st-push-defer", (MS, '''	s.Lock()
	err := s.appendBlock(block, info, details)
	s.Unlock()
	return err
''', '''	s.Lock()
	defer s.Unlock()

	return s.appendBlock(block, info, details)
'''))
ref("st-push-reorder", (MS, '''	s.blockIndex[index] = block
	s.blockInfosIndex[index] = info
	s.blockInfosHashIndex[*hash] = info

	s.transactionsIndex[index] = &details.transactions
''', '''	s.transactionsIndex[index] = &details.transactions

	s.blockInfosIndex[index] = info
	s.blockInfosHashIndex[info.Hash] = info
	s.blockIndex[index] = block

'''))
ref("st-push-top-split", (MS, '''	if s.topBlock == nil || index > s.topBlock.Index() {
		s.topBlock = block
	}
''', '''	switch {
	case s.topBlock == nil:
		s.topBlock = block
	case s.topBlock.Index() < index:
		s.topBlock = block
	}
'''))
ref("st-push-helper", (MS, '''	if s.haveBlock(hash) {
		return ErrStorageBlockExists
	}

	if _, ok := s.blockIndex[index]; ok {
		return ErrStorageBlockExists
	}
''', '''	if s.taken(hash, index) {
		return ErrStorageBlockExists
	}
'''), (MS, '''func (s *memoryStorage) HaveBlock(''', '''func (s *memoryStorage) taken(hash *crypto.Hash, index uint32) bool {
	_, filed := s.blockIndex[index]
	return filed || s.haveBlock(hash)
}

func (s *memoryStorage) HaveBlock('''))
ref("st-hash-at", (MS, '''	if block, ok := s.blockIndex[index]; ok {
		return block.Hash(), nil
	}

	return nil, ErrStorageBlockNotFound
''', '''	block := s.blockIndex[index]
	if block == nil {
		return nil, ErrStorageBlockNotFound
	}

	return block.Hash(), nil
'''))
ref("fu-ratio-div", (VV, "	if len(inputsAmounts) < len(outputsAmounts)*minRatio {", "	if minInputs := minRatio * len(outputsAmounts); minInputs > len(inputsAmounts) {"))
ref("fu-length-first", (VV, '''	for i := range expectedOutputsAmount {
		if expectedOutputsAmount[i] != outputsAmounts[i] {
			validator.logger.Error(ErrTransactionFusionDecomposedNotMatch)
			return false
		}
	}

	return true
''', '''	matches := true
	for i, expected := range expectedOutputsAmount {
		if outputsAmounts[i] != expected {
			matches = false
			break
		}
	}

	if !matches {
		validator.logger.Error(ErrTransactionFusionDecomposedNotMatch)
	}

	return matches
'''))
ref("df-dispatch-switch", (N, '''	if nextBlockMajorVersion >= BlockMajorVersion5 {
		return n.nextDifficultyV5(h, nextBlockMajorVersion, timestamps, cumulativeDifficulties)
	}

	if nextBlockMajorVersion == BlockMajorVersion4 {
		return n.nextDifficultyV4(h, timestamps, cumulativeDifficulties)
	}

	if nextBlockMajorVersion == BlockMajorVersion3 {
		return n.nextDifficultyV3(timestamps, cumulativeDifficulties)
	}

	if nextBlockMajorVersion == BlockMajorVersion2 {
		return n.nextDifficultyV2(timestamps, cumulativeDifficulties)
	}

	return n.nextDifficultyV1(timestamps, cumulativeDifficulties)
''', '''	switch {
	case nextBlockMajorVersion <= BlockMajorVersion1:
		return n.nextDifficultyV1(timestamps, cumulativeDifficulties)
	case nextBlockMajorVersion == BlockMajorVersion2:
		return n.nextDifficultyV2(timestamps, cumulativeDifficulties)
	case nextBlockMajorVersion == BlockMajorVersion3:
		return n.nextDifficultyV3(timestamps, cumulativeDifficulties)
	case nextBlockMajorVersion == BlockMajorVersion4:
		return n.nextDifficultyV4(h, timestamps, cumulativeDifficulties)
	}

	return n.nextDifficultyV5(h, nextBlockMajorVersion, timestamps, cumulativeDifficulties)
'''))
ref("df-v3-floor-early", (N, '''	if !n.allowLowDifficulty && nextDifficulty < minimalDifficulty {
		nextDifficulty = minimalDifficulty
	}

	return nextDifficulty, nil
''', '''	if n.allowLowDifficulty || nextDifficulty >= minimalDifficulty {
		return nextDifficulty, nil
	}

	return minimalDifficulty, nil
'''))
ref("df-v4-floor-helper", (N, '''	if sum3ST < (8*T)/10 {
		nextD = (prevD * 110) / 100
	}

	if !n.allowLowDifficulty && nextD < minimalDifficulty {
		nextD = minimalDifficulty
	}

	return uint64(nextD), nil
}
''', '''	if sum3ST < (8*T)/10 {
		nextD = (prevD * 110) / 100
	}

	return n.floor(nextD), nil
}

func (n *Network) floor(d int64) uint64 {
	if n.allowLowDifficulty {
		return uint64(d)
	}

	return uint64(utils.MaxInt64(d, minimalDifficulty))
}
'''))
ref("df-lists-helper", (N, '''	T := int64(difficultyTarget)
	N := int64(difficultyWindow3)

	var L, ST, sum3ST int64 = 0, 0, 0

	if len(timestamps) != len(cumulativeDifficulties) {
		return 0, errors.New(fmt.Sprintf(
			"assertion failed - timestamp count (%d) must match cumulativeDifficulties count (%d)",
			len(timestamps),
			len(cumulativeDifficulties),
		))
	}
''', '''	T := int64(difficultyTarget)
	N := int64(difficultyWindow3)

	var L, ST, sum3ST int64 = 0, 0, 0

	if err := sameLength(timestamps, cumulativeDifficulties); err != nil {
		return 0, err
	}
'''), (N, '''func (n *Network) nextDifficultyV3(''', '''func sameLength(timestamps, difficulties []uint64) error {
	if a, b := len(timestamps), len(difficulties); a != b {
		return fmt.Errorf("assertion failed - timestamp count (%d) must match cumulativeDifficulties count (%d)", a, b)
	}

	return nil
}

func (n *Network) nextDifficultyV3('''))
ref("df-v5-reset", (N, "		return cumulativeDifficulties[0] / uint64(height) / resetWorkFactorV5, nil", "		work := cumulativeDifficulties[0]\n		return work / (resetWorkFactorV5 * uint64(height)), nil"))
ref("df-v2-order", (N, '''	length := len(timestamps)
	if length <= 1 {
		return 1, nil
	}

	sort.Slice(timestamps, func(i, j int) bool { return timestamps[i] < timestamps[j] })

	timeSpan := timestamps[len(timestamps)-1] - timestamps[0]
	if timeSpan == 0 {
		timeSpan = 1
	}
''', '''	if len(timestamps) < 2 {
		return 1, nil
	}

	sort.Slice(timestamps, func(i, j int) bool { return timestamps[i] < timestamps[j] })

	timeSpan := utils.MaxUint64(1, timestamps[len(timestamps)-1]-timestamps[0])
'''))
ref("df-v5-loop-while", (N, '''	i := int64(1000000000)
	for i > 1 {
		if nextD > i*100 {
			nextD = (((nextD + i) / 2) / i) * i
			break
		}

		i /= 10
	}
''', '''	for i := int64(1000000000); i > 1; i /= 10 {
		if nextD > i*100 {
			nextD = (((nextD + i) / 2) / i) * i
			break
		}
	}
'''))
