SM="cryptonote/storage_memory.go"; CH="cryptonote/chain.go"; CP="config/checkpoints.go"; PST="p2p/peerstore.go"; PEE="p2p/peer.go"
ref("l-push-defer", (SM, "	s.Lock()\n	err := s.appendBlock(block, info, details)\n	s.Unlock()\n	return err\n", "	s.Lock()\n	defer s.Unlock()\n\n	return s.appendBlock(block, info, details)\n"))
ref("l-get-explicit", (SM, "	s.RLock()\n	defer s.RUnlock()\n\n	if blockInfo, ok := s.blockInfosHashIndex[*hash]; ok {\n		block := s.blockIndex[blockInfo.Index]\n		return block\n	}\n\n	return nil\n", "	s.RLock()\n	if blockInfo, ok := s.blockInfosHashIndex[*hash]; ok {\n		block := s.blockIndex[blockInfo.Index]\n		s.RUnlock()\n		return block\n	}\n	s.RUnlock()\n\n	return nil\n"))
ref("l-closure-helper", (PST, "	ps.mutex.Lock()\n	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n\n	if err := ps.white.Add(p); err != nil {\n		return err\n	}\n\n	return nil\n}\n", "	return ps.locked(func() error {\n		_ = ps.grey.Remove(p)\n\n		return ps.white.Add(p)\n	})\n}\n\nfunc (ps *peerStore) locked(f func() error) error {\n	ps.mutex.Lock()\n	defer ps.mutex.Unlock()\n\n	return f()\n}\n"))
ref("l-unlock-func", (PST, "	ps.mutex.Lock()\n	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n", "	defer ps.lock()()\n\n	_ = ps.grey.Remove(p)\n"), (PST, "func (pl *peerList) Add(", "func (ps *peerStore) lock() func() {\n	ps.mutex.Lock()\n	return ps.mutex.Unlock\n}\n\nfunc (pl *peerList) Add("))
ref("l-unlock-func2", (PST, "	ps.mutex.Lock()\n	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n", "	unlock := ps.lock()\n	defer unlock()\n\n	_ = ps.grey.Remove(p)\n"), (PST, "func (pl *peerList) Add(", "func (ps *peerStore) lock() func() {\n	ps.mutex.Lock()\n	return func() { ps.mutex.Unlock() }\n}\n\nfunc (pl *peerList) Add("))
ref("l-mutex-param", (PST, "	ps.mutex.Lock()\n	defer ps.mutex.Unlock()\n\n	_ = ps.grey.Remove(p)\n", "	m := &ps.mutex\n	m.Lock()\n	defer m.Unlock()\n\n	_ = ps.grey.Remove(p)\n"))
ref("l-map-helper", (SM, "	if _, ok := s.blockInfosHashIndex[*hash]; ok {\n		return true\n	}\n\n	return false\n", "	return hasInfo(s.blockInfosHashIndex, hash)\n"), (SM, "func (s *memoryStorage) Close() error {", "func hasInfo(m map[crypto.Hash]*blockInfo, hash *crypto.Hash) bool {\n	_, ok := m[*hash]\n	return ok\n}\n\nfunc (s *memoryStorage) Close() error {"))
ref("l-checkpoint-rlock", (CP, "func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {\n	cp.Lock()\n	defer cp.Unlock()\n\n", "func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {\n	cp.RLock()\n	defer cp.RUnlock()\n\n"))
ref("l-add-inner", (CH, "	bc.Lock()\n	defer bc.Unlock()\n\n	blockHash := block.Hash()\n", "	bc.Lock()\n	err := bc.addBlock(block, rawTransactions)\n	bc.Unlock()\n	return err\n}\n\n// addBlock is AddBlock for callers that hold the lock\nfunc (bc *BlockChain) addBlock(block *Block, rawTransactions [][]byte) error {\n	blockHash := block.Hash()\n"))
ref("l-entries-copy", (PST, "	var peers []PeerEntry\n\n	for _, p := range ps.white.peers {\n		peers = append(peers, p.PeerEntry())\n	}\n", "	peers := make([]PeerEntry, 0, len(ps.white.peers)+len(ps.grey.peers))\n\n	for _, p := range ps.white.peers {\n		peers = append(peers, p.PeerEntry())\n	}\n"))
