SMF = "cryptonote/storage_memory.go"; CHF = "cryptonote/chain.go"
bug("l01-duplicate-keeps-lock", "L01", SMF, [("	err := s.appendBlock(block, info, details)\n	s.Unlock()\n	return err\n", "	if err := s.appendBlock(block, info, details); err != nil {\n		return err\n	}\n	s.Unlock()\n	return nil\n")],
 TC(["testing", "time"], '''
	bc := demoChain(t, true)
	g, err := bc.storage.TopBlock()
	if err != nil {
		t.Fatal(err)
	}
	info := bc.storage.getBlockInfoAtIndex(0)
	if err := bc.storage.PushBlock(g, info, TransactionsDetails{}); err == nil {
		t.Fatal("a block stored twice")
	}
	done := make(chan struct{})
	go func() { bc.storage.TopBlock(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the storage is locked forever after a refused block")
	}
'''), "a block the storage refuses", "the storage keeps its lock when it refuses a block, everything after it hangs")

bug("l01-orphan-logs-top", "L01", CHF, [("		err := ErrAddBlockRejectedAsOrphaned\n		logger.Error(err)\n", "		err := ErrAddBlockRejectedAsOrphaned\n		if top := bc.TopBlock(); top != nil {\n			logger.WithField(\"top_index\", top.Index()).Error(err)\n		}\n")],
 TC(["testing", "time"], '''
	bc := demoChain(t, true)
	b := Block{}
	b.MajorVersion = 1
	b.PreviousBlockHash[3] = 7
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: 1}}
	done := make(chan struct{})
	go func() { _ = bc.AddBlock(&b, nil); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the chain locks itself up on an orphaned block")
	}
'''), "a block whose predecessor is unknown", "the chain takes its own lock a second time and hangs")

bug("l01-nested-read-lock", "L01", SMF, [("	if blockInfo, ok := s.blockInfosHashIndex[*hash]; ok {\n		block := s.blockIndex[blockInfo.Index]\n		return block\n	}\n\n	return nil\n", "	if !s.HaveBlock(hash) {\n		return nil\n	}\n\n	return s.blockIndex[s.blockInfosHashIndex[*hash].Index]\n")],
 TC(["testing", "time"], '''
	bc := demoChain(t, true)
	g, _ := bc.storage.TopBlock()
	info := bc.storage.getBlockInfoAtIndex(0)
	h := g.Hash()
	done := make(chan struct{}, 8)
	for i := 0; i < 8; i++ {
		reader := i%2 == 0
		go func() {
			for k := 0; k < 100000; k++ {
				if reader {
					bc.storage.GetBlock(h)
				} else {
					_ = bc.storage.PushBlock(g, info, TransactionsDetails{})
				}
			}
			done <- struct{}{}
		}()
	}
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-time.After(90 * time.Second):
			t.Fatal("reader and writer of the storage wait for each other")
		}
	}
'''), "a block stored between the two read locks of a lookup", "the second read lock waits for the writer, the writer for the first read lock")

bug("l02-push-checked-before", "L02", SMF, [("	s.Lock()\n	err := s.appendBlock(block, info, details)\n	s.Unlock()\n	return err\n", "	if s.HaveBlock(block.Hash()) {\n		return ErrStorageBlockExists\n	}\n\n	s.Lock()\n	err := s.appendBlock(block, info, details)\n	s.Unlock()\n	return err\n"),
  ("	if s.haveBlock(hash) {\n		return ErrStorageBlockExists\n	}\n\n	if _, ok := s.blockIndex[index]; ok {\n		return ErrStorageBlockExists\n	}\n\n", "	if known, ok := s.blockIndex[index]; ok && *known.Hash() != *hash {\n		return ErrStorageBlockExists\n	}\n\n")],
 TC(["testing", "sync"], '''
	g := demoChain(t, true).TopBlock()
	for k := 0; k < 3000; k++ {
		s := NewMemoryStorage()
		if err := s.Init(g); err != nil {
			t.Fatal(err)
		}
		var b Block
		b.MajorVersion = 1
		b.Nonce = uint32(k)
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: 1}}
		info := blockInfo{Index: 1, Hash: *b.Hash()}
		var wg sync.WaitGroup
		var ok [8]bool
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c := b
				ok[i] = s.PushBlock(&c, &info, TransactionsDetails{}) == nil
			}()
		}
		close(start)
		wg.Wait()
		n := 0
		for _, v := range ok {
			if v {
				n++
			}
		}
		if n != 1 {
			t.Fatal("one block stored several times: ", n)
		}
	}
'''), "two connections storing the same block at the same moment", "the block is checked in one locked section and stored in another, both storages succeed")

bug("l02-checkpoint-sorted-late", "L02", "config/checkpoints.go", [("	cp.Lock()\n	defer cp.Unlock()\n\n	if _, ok := cp.points[index]; ok {\n", "	cp.Lock()\n	defer cp.sortPoints()\n	defer cp.Unlock()\n\n	if _, ok := cp.points[index]; ok {\n"),
  ("	sort.Slice(cp.pointsSorted, func(i, j int) bool {\n		return cp.pointsSorted[i] < cp.pointsSorted[j]\n	})\n\n	return nil\n}\n", "	return nil\n}\n\nfunc (cp *checkpoints) sortPoints() {\n	sort.Slice(cp.pointsSorted, func(i, j int) bool {\n		return cp.pointsSorted[i] < cp.pointsSorted[j]\n	})\n}\n")],
 '''package config

import (
	"io"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	l := log.New()
	l.SetOutput(io.Discard)
	cp := NewCheckpoints(l).(*checkpoints)
	const top = 100000
	if err := cp.AddCheckpoint(top, crypto.Hash{1}); err != nil {
		t.Fatal(err)
	}
	stop := make(chan struct{})
	go func() {
		for i := uint32(1); i < 4000; i++ {
			_ = cp.AddCheckpoint(i, crypto.Hash{2})
		}
		close(stop)
	}()
	for {
		select {
		case <-stop:
			return
		default:
		}
		if !cp.IsInCheckpointZone(top) {
			t.Fatal("a height of the checkpoint zone is outside while checkpoints are added")
		}
	}
}
''', "a height looked up while a checkpoint is added", "the zone ends early for a moment: the last checkpoint added is taken for the highest", pkg="config", harness="none")
