N = "config/network.go"
K = "config/checkpoints.go"
MS = "cryptonote/storage_memory.go"
MA = "utils/math.go"
CF = "M01 N01 N02 N03 N04 N05 C05 C06 C08 T06 L01"
mut("c-maxblock-den", CF, (N, "((h * n.maxBlockSizeGrowthSpeedNumerator) / n.maxBlockSizeGrowthSpeedDenominator)", "(h * (n.maxBlockSizeGrowthSpeedNumerator / n.maxBlockSizeGrowthSpeedDenominator))"))
mut("c-maxtx-ge", CF, (N, "	if height > UpgradeHeightV4 {\n		return transactionMaxSize", "	if height >= UpgradeHeightV4 {\n		return transactionMaxSize"))
mut("c-version-ge", CF, (N, "if blockIndex > upgradeHeight && majorVersion > version", "if blockIndex >= upgradeHeight && majorVersion > version"))
mut("c-version-max", CF, (N, "if blockIndex > upgradeHeight && majorVersion > version {", "if blockIndex > upgradeHeight {"))
mut("c-future-v5", CF, (N, "	if majorVersion >= BlockMajorVersion4 {\n		return blockFutureTimeLimitV1", "	if majorVersion == BlockMajorVersion4 {\n		return blockFutureTimeLimitV1"))
mut("c-fusion-size", CF, (N, "	if height <= UpgradeHeightV3 {\n		return blockGranted", "	if height < UpgradeHeightV3 {\n		return blockGranted"))
mut("c-diff-window4", CF, (N, "if majorVersion == BlockMajorVersion3 || majorVersion == BlockMajorVersion4 {\n		return difficultyWindow3 + 1", "if majorVersion == BlockMajorVersion3 {\n		return difficultyWindow3 + 1"))
mut("c-diff-dispatch", CF, (N, "	if nextBlockMajorVersion == BlockMajorVersion4 {\n		return n.nextDifficultyV4", "	if nextBlockMajorVersion >= BlockMajorVersion4 && h != UpgradeHeightV4+1 {\n		return n.nextDifficultyV4"))
mut("c-minfee-v3", CF, (N, "		minFee := n.MinimalFee(height)\n		return minFee - (minFee * 20 / 100)", "		minFee := n.MinimalFee(height)\n		return minFee - (minFee / 100)"))
mut("c-minfee-v4s3", CF, (N, "	if height > UpgradeHeightV4 && height < UpgradeHeightV4s3 {\n		minFee", "	if height > UpgradeHeightV4 && height <= UpgradeHeightV4s3 {\n		minFee"))
mut("c-fee-extra", CF, (N, "if txExtraSize > 100 {", "if txExtraSize > 101 {"))
mut("c-zone", CF, (N, "	if majorVersion == BlockMajorVersion2 {\n		return blockGrantedFullRewardZoneV2", "	if majorVersion < BlockMajorVersion2 {\n		return blockGrantedFullRewardZoneV2"))
mut("c-reward-limit", CF, (N, "if currentBlockSize > medianSize*2 {", "if currentBlockSize > medianSize*2+1 {"))
mut("c-reward-max", CF, (N, "medianSize = utils.MaxUint64(", "medianSize = utils.MinUint64("))
mut("c-reward-fee", CF, (N, "emissionChange := penalizedBaseReward - (fee - penalizedFee)", "emissionChange := penalizedBaseReward"))
mut("c-v5-reset", CF, (N, "	if height == UpgradeHeightV5 {\n		return cum", "	if height == UpgradeHeightV5+1 {\n		return cum"))
mut("c-v5-count", CF, (N, "	if len(timestamps) != len(cumulativeDifficulties) {\n		return 0, errors.New(fmt.Sprintf(\n			\"assertion failed - timestamp count (%d) must match cumulativeDifficulties count (%d)\",\n			len(timestamps),\n			len(cumulativeDifficulties),\n		))\n	}\n\n	T := int64(difficultyTarget)\n	// adjust", "	T := int64(difficultyTarget)\n	// adjust"))
mut("c-v5-floor", CF, (N, "		i /= 10\n	}\n\n	if !n.allowLowDifficulty && nextD < minimalDifficulty {\n		nextD = minimalDifficulty\n	}\n", "		i /= 10\n	}\n\n	if !n.allowLowDifficulty && nextD < 1 {\n		nextD = 1\n	}\n"))
mut("c-v5-ts", CF, (N, "			thisTimestamp = previousTimestamp + 1\n", "			thisTimestamp = previousTimestamp\n"))
mut("c-v5-cap", CF, (N, "L += i * utils.MinInt64(6*T, thisTimestamp-previousTimestamp)", "L += i * (thisTimestamp - previousTimestamp)"))
mut("c-v5-lmin", CF, (N, "	if L < N*N*T/20 {\n		L = N * N * T / 20\n	}\n", ""))
mut("c-v5-offset", CF, (N, "height < UpgradeHeightV5+count {", "height <= UpgradeHeightV5+count {"))
mut("k-add-exists", CF, (K, "		err := ErrCheckpointsAlreadyExists\n		cp.prepareLogger(index, &hash).Error(err)\n		return err", "		cp.points[index] = hash\n		err := ErrCheckpointsAlreadyExists\n		cp.prepareLogger(index, &hash).Error(err)\n		return err"))
mut("k-add-order", CF, (K, "return cp.pointsSorted[i] < cp.pointsSorted[j]", "return cp.pointsSorted[i] > cp.pointsSorted[j]"))
mut("k-zone-lt", CF, (K, "maxHeight != 0 && index <= maxHeight", "maxHeight != 0 && index < maxHeight"))
mut("k-check-ptr", CF, (K, "if checkpointHash == *hash {", "if checkpointHash[0] == (*hash)[0] {"))
mut("k-check-zero", CF, (K, "if checkpointHash, ok := cp.points[index]; ok {", "if checkpointHash, ok := cp.points[index]; ok && index != 0 {"))
mut("s-init-diff", CF, (MS, "CumulativeDifficulty: 1,", "CumulativeDifficulty: 0,"))
mut("s-init-size", CF, (MS, "genesisBlock.BaseTransaction.Size(),", "uint64(0),"))
mut("s-init-coins", CF, (MS, "TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,\n", ""))
mut("s-init-err", CF, (MS, "	err := s.PushBlock(genesisBlock, &info, TransactionsDetails{})\n	return err", "	_ = s.PushBlock(genesisBlock, &info, TransactionsDetails{})\n	return nil"))
mut("s-push-exists", CF, (MS, "	if _, ok := s.blockIndex[index]; ok {\n		return ErrStorageBlockExists\n	}\n\n", ""))
mut("s-push-order", CF, (MS, "	if s.haveBlock(hash) {\n		return ErrStorageBlockExists\n	}\n\n	if _, ok := s.blockIndex[index]; ok {\n		return ErrStorageBlockExists\n	}\n\n	s.blockIndex[index] = block\n", "	if s.haveBlock(hash) {\n		return ErrStorageBlockExists\n	}\n\n	_, ok := s.blockIndex[index]\n	s.blockIndex[index] = block\n	if ok {\n		return ErrStorageBlockExists\n	}\n\n"))
mut("s-push-top", CF, (MS, "if s.topBlock == nil || index > s.topBlock.Index() {", "if s.topBlock == nil || index >= s.topBlock.Index()+1 && index > 0 && len(details.transactions) > 0 {"))
mut("s-get-block", CF, (MS, "block := s.blockIndex[blockInfo.Index]\n		return block", "block := s.blockIndex[blockInfo.Index]\n		if block == nil {\n			return s.topBlock\n		}\n		return block"))
mut("s-get-nil", CF, (MS, "		return block\n	}\n\n	return nil\n}\n\nfunc (s *memoryStorage) haveBlock", "		return block\n	}\n\n	return s.topBlock\n}\n\nfunc (s *memoryStorage) haveBlock"))
mut("s-info-at", CF, (MS, "info := s.blockInfosIndex[index]", "info := s.blockInfosIndex[index]\n	if info == nil {\n		info = s.blockInfosIndex[0]\n	}"))
