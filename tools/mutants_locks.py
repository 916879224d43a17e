SM="cryptonote/storage_memory.go"; CH="cryptonote/chain.go"; CP="config/checkpoints.go"; PST="p2p/peerstore.go"; NOD="p2p/node.go"; HSK="p2p/command_handshake.go"; PEE="p2p/peer.go"
mut("l-getblock-unlocked", "L02", (SM, "func (s *memoryStorage) GetBlock(hash *crypto.Hash) *Block {\n	s.RLock()\n	defer s.RUnlock()\n", "func (s *memoryStorage) GetBlock(hash *crypto.Hash) *Block {\n"))
mut("l-push-rlock", "L01 L02", (SM, "	s.Lock()\n	err := s.appendBlock(block, info, details)\n	s.Unlock()\n", "	s.RLock()\n	err := s.appendBlock(block, info, details)\n	s.RUnlock()\n"))
mut("l-push-early", "L01", (SM, "	s.Lock()\n	err := s.appendBlock(block, info, details)\n	s.Unlock()\n	return err\n", "	s.Lock()\n	if err := s.appendBlock(block, info, details); err != nil {\n		return err\n	}\n	s.Unlock()\n	return nil\n"))
mut("l-add-gap", "L02", (CH, "	currentDifficulty, err := bc.difficultyForNextBlock(prevBlock)\n", "	bc.Unlock()\n	currentDifficulty, err := bc.difficultyForNextBlock(prevBlock)\n	bc.Lock()\n"))
mut("l-add-checked-outside", "L02", (CH, "	bc.Lock()\n	defer bc.Unlock()\n\n	blockHash := block.Hash()\n", "	if bc.HaveBlock(block.Hash()) {\n		return ErrAddBlockAlreadyExists\n	}\n\n	bc.Lock()\n	defer bc.Unlock()\n\n	blockHash := block.Hash()\n"))
mut("l-entries-unlocked", "L02", (PST, "	ps.mutex.RLock()\n	defer ps.mutex.RUnlock()\n\n	var", "	var"))
mut("l-white-section", "L02", (PST, "	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n\n	if err := ps.white.Add(p); err != nil {\n		return err\n	}\n\n	return nil\n", "	_ = ps.grey.Remove(p)\n	ps.mutex.Unlock()\n\n	ps.mutex.Lock()\n	err := ps.white.Add(p)\n	ps.mutex.Unlock()\n\n	return err\n"))
mut("l-white-add-outside", "L02", (PST, "	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n", "	_ = ps.grey.Remove(p)\n	ps.mutex.Unlock()\n"))
mut("l-top-no-unlock", "L01", (SM, "	block := s.topBlock\n	s.RUnlock()\n", "	block := s.topBlock\n"))
mut("l-top-mode", "L01", (SM, "	block := s.topBlock\n	s.RUnlock()\n", "	block := s.topBlock\n	s.Unlock()\n"))
mut("l-sync-relock", "L01", (NOD, "	if p.state == PeerStateSynchronizing {\n	} else", "	p.SetVersion(p.version)\n	if p.state == PeerStateSynchronizing {\n	} else"))
mut("l-order", "L01", (NOD, "	if p.state == PeerStateSynchronizing {\n	} else", "	p.procMutex.Lock()\n	defer p.procMutex.Unlock()\n	if p.state == PeerStateSynchronizing {\n	} else"))
mut("l-zone-unlocked", "L02", (CP, "func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {\n	cp.Lock()\n	defer cp.Unlock()\n\n", "func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {\n"))
mut("l-checkpoint-rlock", "L02", (CP, "error {\n	cp.Lock()\n	defer cp.Unlock()\n\n	if _, ok := cp.points[index]; ok {", "error {\n	cp.RLock()\n	defer cp.RUnlock()\n\n	if _, ok := cp.points[index]; ok {"))
mut("l-checkpoint-sort-late", "L02", (CP, "	cp.pointsSorted = append(cp.pointsSorted, index)\n\n	sort.Slice", "	cp.pointsSorted = append(cp.pointsSorted, index)\n\n	defer sort.Slice"), (CP, "error {\n	cp.Lock()\n	defer cp.Unlock()\n\n	if _, ok := cp.points[index]; ok {", "error {\n	cp.Lock()\n	unlock := cp.Unlock\n	defer func() {\n		if unlock != nil {\n			cp.Unlock()\n		}\n		cp.pointsSorted = cp.pointsSorted[:len(cp.pointsSorted):len(cp.pointsSorted)]\n	}()\n\n	if _, ok := cp.points[index]; ok {"))
mut("l-handshake-unlock-twice", "L01", (HSK, "	p.SetVersion(req.NodeData.Version)\n", "	p.SetVersion(req.NodeData.Version)\n	p.procMutex.Unlock()\n"))
mut("l-goroutine-write", "L02", (PST, "	if err := ps.grey.Add(p); err != nil {\n		return err\n	}\n\n	return nil\n", "	go func() { _ = ps.grey.Add(p) }()\n\n	return nil\n"))
mut("l-set-id-return", "L01", (PEE, "	p.ID = ID\n	p.Unlock()\n", "	if p.ID == ID {\n		return\n	}\n	p.ID = ID\n	p.Unlock()\n"))
