From 6079b76c7ac4f7258ed8fdaa3eedfa088d8ada86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 01/35] fix: memory storage can be initialised with the genesis
 block

The hash index was never allocated and the genesis block info had no hash,
so Init always failed.
---
 cryptonote/storage_memory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..4c01499 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
@@ -43,6 +44,7 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 9c37d88695d32b917a911500244a39554d77a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 02/35] fix: memory storage TopIndex releases the lock it took

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 4c01499..3a444c1 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -57,7 +57,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From bc9fc780183b336c1f50eea49fa4ac16876113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 03/35] fix: AlternativeBlockAllowed deadlocked on its own lock

---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..059f1ec 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone is the body of IsInCheckpointZone, the lock must be held by the caller
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From e2629866be4744c8c4d5b57e7bcfe1fe1778ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 04/35] fix: block major version depended on map iteration
 order

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 515e581763d48a109e50cfc5886aba5456d36ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 05/35] fix: mixin was counted over the wrong inputs

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..c5f0a5b 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -569,11 +569,12 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		inputKey, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(inputKey.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From 57e0a0f9d3138f7ad76a0595ce1ff0cd03e537bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 06/35] fix: block size and difficulty windows sampled only
 half of the requested blocks

---
 cryptonote/chain.go      | 1 -
 cryptonote/difficulty.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..4783118 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -600,7 +600,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From 980f71677ea7214979a59841e2829c9c8415d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 07/35] fix: truncated block headers were decoded without an
 error

---
 cryptonote/block.go        | 4 ++--
 cryptonote/block_parent.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..67de25c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -227,12 +227,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..e07a75c 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -68,17 +68,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
-- 
2.43.0


From 0981e5fda4ca9d5dcaa243ebec17a179001e67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 08/35] fix: version 5 block headers could not be encoded or
 decoded

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 67de25c..3ac3faa 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -240,7 +240,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -285,7 +285,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From 4d2488d356b6f5b2007a0975aa57efacd98cafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 09/35] fix: signatures of a decoded transaction were
 misaligned with its inputs

---
 cryptonote/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..37ba7da 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -381,6 +381,10 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 		}
 
 		if sigSize == 0 {
+			// Keep signatures aligned with the inputs
+			if !signaturesNotExpected {
+				*ts = append(*ts, nil)
+			}
 			continue
 		}
 
-- 
2.43.0


From d7fce0d21078d5d81bb71af5e82521014f35cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 10/35] fix: transaction decoding allocated memory for any
 announced length

---
 cryptonote/transaction.go       | 14 ++++++++++++--
 cryptonote/transaction_extra.go |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 37ba7da..4df1b60 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"io"
 )
 
 const (
@@ -231,10 +232,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
+	if inputsLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
 
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
@@ -294,10 +298,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
+	if outputLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
@@ -337,6 +344,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 		return err
 	}
 
+	if extraLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
 		return err
diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From ada6583b78cbadf0490c3d20a2e783d44f079330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 11/35] fix: block and transaction decoding silently truncated
 oversized integers

---
 cryptonote/block.go        |  5 +++++
 cryptonote/block_parent.go |  9 +++++++++
 cryptonote/transaction.go  | 12 ++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 3ac3faa..a31d90e 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -235,6 +236,10 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		return err
 	}
 
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
+		return errors.New("block version is too big")
+	}
+
 	switch uint8(majorVersion) {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		if err := prev.Read(reader); err != nil {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index e07a75c..554932a 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -94,6 +95,14 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
+		return errors.New("parent block version is too big")
+	}
+
+	if txCount > math.MaxUint16 {
+		return errors.New("parent block transactions count is too big")
+	}
+
 	var baseTxBranch crypto.HashList
 	branchSize := treeDepth(int(txCount))
 	for i := 0; i < branchSize; i++ {
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 4df1b60..2b9be55 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"io"
+	"math"
 )
 
 const (
@@ -218,6 +219,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if version > math.MaxUint8 {
+		return errors.New("transaction version is too big")
+	}
 	tp.Version = byte(version)
 
 	/**
@@ -253,6 +257,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 				return err
 			}
 
+			if blockIndex > math.MaxUint32 {
+				return errors.New("coinbase block index is too big")
+			}
+
 			tp.Inputs[inputIndex] = InputCoinbase{uint32(blockIndex)}
 		case TxTagKey:
 			var OutputIndexes []uint32
@@ -274,6 +282,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 					return err
 				}
 
+				if oi > math.MaxUint32 {
+					return errors.New("output index is too big")
+				}
+
 				OutputIndexes = append(OutputIndexes, uint32(oi))
 			}
 
-- 
2.43.0


From e1160136cc1ab620e1359131c7bbb61eab80f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 12/35] fix: number of multisignature output keys was truncated
 to a byte

---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index c5f0a5b..a6e6330 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -261,7 +261,7 @@ func (validator *blockTransactionsValidator) validateOutputs(transaction *Transa
 		case OutputMultisignature:
 			outputTarget := output.Target.(OutputMultisignature)
 
-			if outputTarget.RequiredSignaturesCount > byte(len(outputTarget.Keys)) {
+			if int(outputTarget.RequiredSignaturesCount) > len(outputTarget.Keys) {
 				err := ErrTransactionOutputInvalidRequiredSignaturesCount
 				logger.Error(err)
 				return 0, err
-- 
2.43.0


From 2ca2eb88ebc1ad2c71825c3cc4ecf810a0d8f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 13/35] fix: a genesis block that failed to decode was cached
 and returned later

---
 cryptonote/chain.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 4783118..5f600ea 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -514,7 +514,7 @@ func (bc *BlockChain) haveBlock(h *crypto.Hash) bool {
 // GenesisBlock returns first basic block of the blockchain
 func (bc *BlockChain) GenesisBlock() (*Block, error) {
 	if bc.genesisBlock == nil {
-		bc.genesisBlock = &Block{}
+		genesisBlock := &Block{}
 		genesisTransactionBytes, err := hex.DecodeString(bc.Network.GenesisCoinbaseTxHex)
 		reader := bytes.NewReader(genesisTransactionBytes)
 
@@ -522,14 +522,16 @@ func (bc *BlockChain) GenesisBlock() (*Block, error) {
 			return nil, err
 		}
 
-		if err := bc.genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
+		if err := genesisBlock.BaseTransaction.Deserialize(reader); err != nil {
 			return nil, err
 		}
 
-		bc.genesisBlock.MajorVersion = config.BlockMajorVersion1
-		bc.genesisBlock.MinorVersion = config.BlockMinorVersion0
-		bc.genesisBlock.Timestamp = bc.Network.GenesisTimestamp
-		bc.genesisBlock.Nonce = bc.Network.GenesisNonce
+		genesisBlock.MajorVersion = config.BlockMajorVersion1
+		genesisBlock.MinorVersion = config.BlockMinorVersion0
+		genesisBlock.Timestamp = bc.Network.GenesisTimestamp
+		genesisBlock.Nonce = bc.Network.GenesisNonce
+
+		bc.genesisBlock = genesisBlock
 	}
 
 	return bc.genesisBlock, nil
-- 
2.43.0


From 0df93b6f13864973ca613cf5e3b0094f189f62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 14/35] fix: fusion outputs were compared with the decomposed
 amounts by count only

---
 cryptonote/transaction_validator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index a6e6330..818b5b5 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -7,6 +7,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -547,10 +548,9 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
 
 	if len(expectedOutputsAmount) != len(outputsAmounts) {
 		logger := validator.logger.WithFields(log.Fields{
@@ -563,6 +563,13 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 		return false
 	}
 
+	for i := range expectedOutputsAmount {
+		if expectedOutputsAmount[i] != outputsAmounts[i] {
+			validator.logger.Error(ErrTransactionFusionDecomposedNotMatch)
+			return false
+		}
+	}
+
 	return true
 }
 
-- 
2.43.0


From e7c08789ab9dc38d048e7ce387fd4615c9fa2660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 15/35] fix: ring signature with a wrong number of members
 crashed the verification

---
 crypto/signature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signature.go b/crypto/signature.go
index 6d7da31..8849ae9 100644
--- a/crypto/signature.go
+++ b/crypto/signature.go
@@ -278,6 +278,10 @@ func GenerateRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey,
 }
 
 func CheckRingSignature(prefixHash *Hash, image *KeyImage, pubs *[]PublicKey, sigs *[]Signature, checkKeyImage bool) bool {
+	if len(*sigs) != len(*pubs) {
+		return false
+	}
+
 	// -------- ENABLED IN DEBUG MODE --------
 	for i := 0; i < len(*pubs); i++ {
 		if !(*pubs)[i].Check() {
-- 
2.43.0


From 866a8eca7139ff81418bb0225c1a4d723551512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 16/35] fix: coinbase unlock height was compared modulo 2^32

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 5f600ea..d69fa7a 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -408,7 +408,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From 97d7d27bcaf8d47628f800ccaf621fa8c89eb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 17/35] fix: median time of the previous blocks included the
 candidate block itself

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index d69fa7a..84ff551 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -380,7 +380,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From 65b649bb95d51d7fb7a5179ca2b9c15c71c724aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 18/35] fix: transaction blobs with trailing bytes were
 accepted

---
 cryptonote/chain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 84ff551..81f6693 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -3,6 +3,7 @@ package cryptonote
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
@@ -557,7 +558,11 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 		}
 
 		r := bytes.NewReader(rt[i])
-		if err := transactions[i].Deserialize(r); err != nil {
+		err := transactions[i].Deserialize(r)
+		if err == nil && r.Len() != 0 {
+			err = errors.New("unexpected bytes after the transaction")
+		}
+		if err != nil {
 			tsLogger.Error(fmt.Errorf("%s: %w", ErrAddBlockTransactionDeserialization.Error(), err))
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
-- 
2.43.0


From d111fddc1a48bf80db7ffdaba0c45d38a946ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 19/35] fix: binary decoder accepted truncated values and
 allocated any announced size

---
 encoding/binary/decode.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..eb1a151 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -26,8 +26,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -61,13 +61,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -130,10 +130,12 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// Announced size is not trusted, the buffer grows with the received data
+		var buf bytes.Buffer
+		if _, err := io.CopyN(&buf, d.r, int64(size)); err != nil {
 			return err
 		}
+		b := buf.Bytes()
 
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
@@ -193,7 +195,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +218,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From 0c31c34487fdc2aeff76d3932f96d257af025918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 20/35] fix: binary decoder accepted objects and arrays that do
 not fit the receiving field

---
 encoding/binary/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index eb1a151..7eb4741 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -170,6 +170,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			value.Set(newSlice)
 		// For binary data only [N]byte array supported.
 		case reflect.Array:
+			if len(b) != value.Len() {
+				return errors.New(fmt.Sprintf("wrong binary size %d for %s", len(b), value.Type()))
+			}
+
 			newArray := reflect.New(value.Type()).Elem()
 			reflect.Copy(newArray, reflect.ValueOf(b))
 
@@ -180,6 +184,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
-- 
2.43.0


From 264d93ab5f0e91184f8c6e4fecaefd89282dcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 21/35] fix: minimal protocol version check of the handshake
 was inverted

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From ca2793612c34178301a57e5989fd1a93756b644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 22/35] fix: blocks received from peers were written to files
 in the working directory

---
 p2p/notification_response_get_objects.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..aef74a4 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -49,12 +48,8 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 		rawBlockReader := bytes.NewReader(rawBlock.Block)
 		if err := block.Deserialize(rawBlockReader); err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
 			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
+				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
 			)
 		}
 
-- 
2.43.0


From 0a013e09c7d6ef9730b67858291710296bcadd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 23/35] fix: block blobs with trailing bytes were accepted

---
 p2p/notification.go                      | 4 ++++
 p2p/notification_response_get_objects.go | 8 +++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/p2p/notification.go b/p2p/notification.go
index a0412d5..69066cf 100644
--- a/p2p/notification.go
+++ b/p2p/notification.go
@@ -93,5 +93,9 @@ func (rb *RawBlock) ToBlock() (*cryptonote.Block, error) {
 		return nil, err
 	}
 
+	if rawBlockReader.Len() != 0 {
+		return nil, errors.New("unexpected bytes after the block")
+	}
+
 	return block, nil
 }
diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index aef74a4..569f51d 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -1,7 +1,6 @@
 package p2p
 
 import (
-	"bytes"
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
@@ -44,9 +43,8 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	orderedBlocks := make([]*cryptonote.Block, len(nt.Blocks))
 	transactions := map[crypto.Hash][][]byte{}
 	for i, rawBlock := range nt.Blocks {
-		block := cryptonote.Block{}
-		rawBlockReader := bytes.NewReader(rawBlock.Block)
-		if err := block.Deserialize(rawBlockReader); err != nil {
+		block, err := rawBlock.ToBlock()
+		if err != nil {
 			p.Shutdown()
 			return errors.New(
 				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
@@ -69,7 +67,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 
 		p.requestedBlocks.Remove(hash)
 		transactions[*hash] = rawBlock.Transactions
-		orderedBlocks[i] = &block
+		orderedBlocks[i] = block
 	}
 
 	if len(p.requestedBlocks) > 0 {
-- 
2.43.0


From b6bac50f9ee14436487d40b8ea219235099e0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 24/35] fix: peer store maps were used by several connections
 without a lock

---
 p2p/peerstore.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/p2p/peerstore.go b/p2p/peerstore.go
index 154e162..666ad00 100644
--- a/p2p/peerstore.go
+++ b/p2p/peerstore.go
@@ -3,11 +3,15 @@ package p2p
 import (
 	"errors"
 	"fmt"
+	"sync"
 )
 
 type peerStore struct {
 	white *peerList
 	grey  *peerList
+
+	// mutex protects both lists, they are shared by all the connections
+	mutex sync.RWMutex
 }
 
 type peerList struct {
@@ -22,6 +26,9 @@ func NewPeerStore() *peerStore {
 }
 
 func (ps *peerStore) toPeerEntries() []PeerEntry {
+	ps.mutex.RLock()
+	defer ps.mutex.RUnlock()
+
 	var peers []PeerEntry
 
 	for _, p := range ps.white.peers {
@@ -36,6 +43,9 @@ func (ps *peerStore) toPeerEntries() []PeerEntry {
 }
 
 func (ps *peerStore) toWhite(p *Peer) error {
+	ps.mutex.Lock()
+	defer ps.mutex.Unlock()
+
 	_ = ps.grey.Remove(p)
 
 	if err := ps.white.Add(p); err != nil {
@@ -46,6 +56,9 @@ func (ps *peerStore) toWhite(p *Peer) error {
 }
 
 func (ps *peerStore) toGrey(p *Peer) error {
+	ps.mutex.Lock()
+	defer ps.mutex.Unlock()
+
 	_ = ps.white.Remove(p)
 
 	if err := ps.grey.Add(p); err != nil {
-- 
2.43.0


From 284875aacac096b33cf20f301310ff1654e51b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 25/35] fix: failed accept started a handler without a
 connection

---
 p2p/node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..19a03a1 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -109,6 +109,7 @@ func (n *Node) runListener() {
 					continue
 				}
 				n.logger.Errorf("failed to accept connection: %s", err)
+				continue
 			}
 
 			go n.handleIncomingConnection(conn)
-- 
2.43.0


From 981dac5be3126ec21e0c014f45e86bfec9efa2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 26/35] fix: shutdown did not wait for connections whose
 handler was not scheduled yet

---
 p2p/node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index 19a03a1..f966113 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -112,21 +112,21 @@ func (n *Node) runListener() {
 				continue
 			}
 
+			n.wg.Add(1)
 			go n.handleIncomingConnection(conn)
 		}
 	}
 }
 
 func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
+	defer n.wg.Done()
+
 	// TODO: Enabling handling incoming connections
 	//return
 
 	peer := NewPeerFromIncomingConnection(n, conn)
 
 	//// TODO: Add peer to peerstore. Make sure it is not exists.
-	//
-	n.wg.Add(1)
-	defer n.wg.Done()
 
 	n.connectionHandler(peer)
 
-- 
2.43.0


From 13333bd6e02a75ad0cd8b215a67c3abcfe0f10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 27/35] fix: peer connections were never closed

---
 p2p/node.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index f966113..e415d67 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -138,6 +138,19 @@ func (n *Node) handleIncomingConnection(conn *net.TCPConn) {
 }
 
 func (n *Node) connectionHandler(p *Peer) {
+	closed := make(chan struct{})
+	defer close(closed)
+	defer p.protocol.Conn.Close()
+
+	// Unblock pending reads of the connection when the node is stopped
+	go func() {
+		select {
+		case <-n.context.Done():
+			_ = p.protocol.Conn.Close()
+		case <-closed:
+		}
+	}()
+
 	for {
 		// Peer state changes asynchronously after handling some commands.
 		// Here we are taking care of handle different peer statuses.
@@ -168,9 +181,9 @@ func (n *Node) connectionHandler(p *Peer) {
 		// Read a next command from the connection
 		cmd, err := p.protocol.read()
 
-		// No command received continue to next loop cycle
+		// Connection closed by the peer
 		if err == io.EOF {
-			continue
+			return
 		}
 
 		// On any error we move the peer to the grey list
-- 
2.43.0


From 92a0787039b55af0f9575f40080d38083623e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 28/35] fix: merge mined blocks were decoded without timestamp
 and nonce

---
 cryptonote/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index a31d90e..95da14c 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -140,6 +140,10 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		}
 
 		b.Parent = parentBlock
+
+		// Timestamp and nonce are not part of the header of merge mined block
+		b.Timestamp = parentBlock.Timestamp
+		b.Nonce = parentBlock.Nonce
 	}
 
 	if err := b.BaseTransaction.Deserialize(r); err != nil {
-- 
2.43.0


From 493eb79b2b01e67c9668b143637c05ce4b09abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 29/35] fix: height check of the response chain entry could be
 bypassed by an overflow

---
 p2p/node.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/node.go b/p2p/node.go
index e415d67..9787f98 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -294,10 +294,12 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 			return errors.New(fmt.Sprintf("[%s] hash %s missing in our blockchain", p, firstHash.String()))
 		}
 
+		lastHeight := uint64(notification.StartHeight) + uint64(len(notification.BlocksHashes)-1)
+
 		p.remoteHeight = notification.TotalHeight
-		p.lastResponseHeight = notification.StartHeight + uint32(len(notification.BlocksHashes)-1)
+		p.lastResponseHeight = uint32(lastHeight)
 
-		if p.lastResponseHeight > p.remoteHeight {
+		if lastHeight > uint64(p.remoteHeight) {
 			// TODO: Create new error instance
 			p.Shutdown()
 			return errors.New(
-- 
2.43.0


From ec3fd9de4a7d02c402696c5c443445eb374f8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 30/35] fix: hash of a missing block was returned as nil
 without an error

---
 cryptonote/storage.go        | 2 ++
 cryptonote/storage_memory.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cryptonote/storage.go b/cryptonote/storage.go
index 5749025..44339ce 100644
--- a/cryptonote/storage.go
+++ b/cryptonote/storage.go
@@ -9,6 +9,8 @@ var (
 	ErrStorageNetworkMismatch = errors.New("storage network mismatch")
 
 	ErrStorageBlockExists = errors.New("block exists in storage")
+
+	ErrStorageBlockNotFound = errors.New("block not found in storage")
 )
 
 // Storage used by blockchain for storing blocks information.
diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 3a444c1..bd03315 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -145,7 +145,7 @@ func (s *memoryStorage) HashAtIndex(index uint32) (*crypto.Hash, error) {
 		return block.Hash(), nil
 	}
 
-	return nil, nil
+	return nil, ErrStorageBlockNotFound
 }
 
 func (s *memoryStorage) getBlockInfoAtIndex(index uint32) *blockInfo {
-- 
2.43.0


From bc549e2f0cd62a229cec6d8a8e7f355794d533c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 31/35] fix: number of expected blocks per day was computed for
 a day of 25 hours

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 0768e1e3c3b0a8c420c7d67cbb1eca6d742c15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 32/35] fix: size of fusion transactions was not limited above
 height 216000

---
 cryptonote/transaction_validator.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 818b5b5..2c07de2 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -480,20 +480,17 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	inputsAmounts := getInputsAmounts(transaction)
 	outputsAmounts := getOutputsAmounts(transaction)
 
-	if validator.blockIndex <= config.UpgradeHeightV3 {
-		size := transaction.Size()
-		maxSize := validator.bc.Network.FusionMaxTxSize(validator.blockIndex)
-
-		if size > maxSize {
-			logger := validator.logger.WithFields(log.Fields{
-				"fusion_transaction_size":     size,
-				"fusion_transaction_max_size": maxSize,
-			})
+	size := transaction.Size()
+	maxSize := validator.bc.Network.FusionMaxTxSize(validator.blockIndex)
+	if size > maxSize {
+		logger := validator.logger.WithFields(log.Fields{
+			"fusion_transaction_size":     size,
+			"fusion_transaction_max_size": maxSize,
+		})
 
-			err := ErrTransactionFusionMaxSize
-			logger.Error(err)
-			return false
-		}
+		err := ErrTransactionFusionMaxSize
+		logger.Error(err)
+		return false
 	}
 
 	minInputCount := int(validator.bc.Network.FusionTxMinInputCount())
-- 
2.43.0


From 5f12a9d714bee53ddc89e2f912dc77afe1f9d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 33/35] fix: refuse addresses whose keys are not points of the
 curve

---
 cryptonote/address.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index c2947a2..b124f59 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -58,6 +58,12 @@ func (a *Address) FromString(s string) error {
 	copy(spendPublicKeyBytes[:], data[:32])
 	copy(viewPublicKeyBytes[:], data[32:64])
 
+	spendPublicKey := crypto.PublicKey(spendPublicKeyBytes)
+	viewPublicKey := crypto.PublicKey(viewPublicKeyBytes)
+	if !spendPublicKey.Check() || !viewPublicKey.Check() {
+		return errors.New("address key is not on curve")
+	}
+
 	a.base58 = s
 	a.SpendPublicKey = spendPublicKeyBytes
 	a.ViewPublicKey = viewPublicKeyBytes
-- 
2.43.0


From 93c6a76c4108bf54c38c40e4f50dc36a0a4cb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 34/35] fix: refuse addresses with a padded tag, they do not
 encode back to themselves

---
 cryptonote/address.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cryptonote/address.go b/cryptonote/address.go
index b124f59..cae63d4 100644
--- a/cryptonote/address.go
+++ b/cryptonote/address.go
@@ -101,6 +101,11 @@ func addressDecode(addr string) (tag uint64, data []byte, err error) {
 		return
 	}
 
+	if read > 1 && decoded[read-1] == 0 {
+		err = fmt.Errorf("tag is not encoded minimally")
+		return
+	}
+
 	data = ddata[read:]
 	return
 }
-- 
2.43.0


From da1d1b03dfe31352e6646322361066ea2ef5443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 35/35] fix: refuse binary data for slices whose items consume
 no data

Binary data received for a field like [][]byte made the decoder append empty
items forever, because reading an item of size zero never reaches the end of
the data. A message of a few bytes from any peer exhausted the memory.
---
 encoding/binary/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 7eb4741..ad5f0e8 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -154,6 +154,11 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			itemType := value.Type().Elem()
 			reader := bytes.NewReader(b)
 
+			// Items must consume data, otherwise the end of the data is never reached
+			if binary.Size(reflect.New(itemType).Interface()) <= 0 {
+				return errors.New(fmt.Sprintf("not supported item type '%s' for binary received", itemType))
+			}
+
 			for {
 				item := reflect.New(itemType)
 				err := binary.Read(reader, binary.LittleEndian, item.Interface())
-- 
2.43.0

