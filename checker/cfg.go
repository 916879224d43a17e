package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions that are kept as uninterpreted terms when the chain code is analysed. The table names
// functions one by one: a helper that is extracted from one of the analysed functions is not in it
// and is therefore analysed in its caller's context. Every function named here has its own rules
// (codec, hash, crypto and config properties) or is outside static reach (curve arithmetic).
var opaqueTable = map[string]string{
	"edwards25519": "*",
	"utils":        "MedianSlice SliceReverse Mul128 Div128p32 SliceIsSortedUint32 SliceIsUniqueUint32 AssertionError",
	"config": `MainNet TestNet NewCheckpoints Network.BlockFutureTimeLimit Network.BlockGrantedFullRewardZoneByBlockVersion Network.BlockTimestampCheckWindow
Network.CoinVersion Network.DefaultDustThreshold Network.DifficultyBlocksCountByBlockVersion Network.FusionMaxTxSize Network.FusionTxMinInOutCountRatio
Network.FusionTxMinInputCount Network.GetBlockMajorVersion Network.GetBlockReward Network.GetFeePerByte Network.IsValidDecomposedAmount Network.MaxBlockSize
Network.MaxMixin Network.MaxTransactionSize Network.MinMixin Network.MinedMoneyUnlockWindow Network.MinimalFee Network.MinimalFeeValidator Network.NextDifficulty
Network.RewardBlockWindow Network.Timestamp checkpoints.AddCheckpoint checkpoints.AlternativeBlockAllowed checkpoints.CheckBlock checkpoints.IsInCheckpointZone`,
	"binary": "Marshal Unmarshal Decoder.decode Encoder.encode storageBlockHeader.decode storageBlockHeader.encode storageBlockHeader.equals",
	"crypto": `CheckRingSignature EllipticCurvePoint.Check GenerateKey GenerateKeyDerivation GenerateKeyImage GenerateRingSignature Hash.FromBytes Hash.Read
Hash.Sign Hash.String Hash.toEc Hash.toPoint Hash.toScalar HashFromBytes HashList.Has HashList.Index HashList.MerkleRootHash HashList.Remove HashList.TreeHashFromBranch
Keccak KeyDerivation.derivePublicKey KeyDerivation.deriveSecretKey KeyDerivation.toScalar KeyDerivation.underivePublicKey KeyImage.ScalarMult PublicFromSecret
PublicKey.Check RandomScalar Signature.Check Signature.Deserialize Signature.Serialize ViewFromSpend`,
	"base58": "Decode Encode",
	"cryptonote": `BaseTransaction.Hash Block.Hash Block.HashingBytes Block.Index Block.Serialize Block.Deserialize Transaction.Hash Transaction.Size Transaction.Serialize
Transaction.Deserialize TransactionPrefix.Hash TransactionPrefix.ParseExtra DecomposeAmountIntoDigits TxExtraFromBytes ParentBlock.serialize`,
}

var opaqueNames = func() map[string]bool {
	m := map[string]bool{}
	for p, l := range opaqueTable {
		for _, n := range strings.Fields(l) {
			m[p+"."+n] = true
		}
	}
	return m
}()

func tableOpaque(fn *ssa.Function) bool {
	n := fname(fn)
	return opaqueNames[n] || opaqueNames[n[:strings.Index(n, ".")]+".*"]
}

func nameSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(s) {
		m[n] = true
	}
	return m
}

func chainCfg(extraOpaque ...string) EngCfg {
	extra := map[string]bool{}
	for _, x := range extraOpaque {
		extra[x] = true
	}
	return EngCfg{
		Opaque: func(fn *ssa.Function) bool { return tableOpaque(fn) || extra[fname(fn)] },
		Impure: func(n string) bool {
			return n == "cryptonote.Storage.PushBlock" || n == "cryptonote.Storage.Init" || strings.HasSuffix(n, ".Deserialize") || strings.HasSuffix(n, ".deserialize")
		},
		Track: func(n string) bool { return n == "cryptonote.Storage.PushBlock" },
	}
}

// fix assumes answers for opaque predicates.
func (c EngCfg) fix(m map[string]bool) EngCfg {
	c.Fix = func(name string, args []*Term) *bool {
		if v, ok := m[name]; ok {
			return &v
		}
		return nil
	}
	return c
}
