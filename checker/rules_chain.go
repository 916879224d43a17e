package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about admission of a block: every path of BlockChain.AddBlock that returns without an error
// must have established each of them. The root is the exported entry point; everything below it is
// analysed in context, whatever functions it is split into.

type R struct {
	rule, pat, mean string
	rej             string // sentinel errors that report the violation of this rule
}

const prevP = "GetBlock(_, block.PreviousBlockHash)"
const prevIdxP = "Block.Index(" + prevP + ")"
const prevInfoP = "getBlockInfoAtIndex(_, " + prevIdxP + ")"
const txsP = "either(raw, block.TransactionsHashes)"

// eachTx: p holds for every transaction of the block; v_t is the list whose i-th element has the i-th
// hash of the block, in whatever loop that was established.
func eachTx(p string) string {
	return "all(h, " + txsP + ", Transaction.Hash(v_t[h]) == block.TransactionsHashes[h]) && all(i, either(raw, block.TransactionsHashes, v_t), " + p + ")"
}

// zoneFix assumes the checkpoint answer for the block's own height (and the height after it).
func zoneFix(cfg EngCfg, zone bool, more map[string]bool) EngCfg {
	cfg.Fix = func(name string, args []*Term) *bool {
		if strings.HasSuffix(name, "heckpoints.IsInCheckpointZone") && len(args) == 2 {
			ts, c := args[1], int64(0)
			if ts.op == OpSum && len(ts.args) == 1 {
				k := bigOf(ts.val)
				if !k.IsInt64() {
					return nil
				}
				c, ts = k.Int64(), ts.args[0]
			}
			if ts.op == OpCall && ts.str == "cryptonote.Block.Index" && len(ts.args) == 1 && ts.args[0].op == OpParam && (zone && c <= 0 && c >= -1 || !zone && c >= 0) {
				// the zone reaches from the start of the chain to the last checkpoint
				return &zone
			}
			return nil
		}
		if v, ok := more[name]; ok {
			return &v
		}
		return nil
	}
	return cfg
}

var rulesC01 = []R{
	{"not-already-known", "!HaveBlock(_, Block.Hash(block))", "the block is not stored yet", "ErrAddBlockAlreadyExists"},
	{"predecessor-known", prevP + " != nil", "the predecessor named by the block is stored", "ErrAddBlockRejectedAsOrphaned"},
	{"index-follows", "Block.Index(block) == Block.Index(" + prevP + ") + 1", "the block's index is its predecessor's plus one", "ErrAddBlockPrevBlockIndexMismatch"},
}

var rulesC02 = []R{
	{"scheduled-version", "block.MajorVersion == GetBlockMajorVersion(_, Block.Index(block))", "the version is the one scheduled for the block's index", "ErrBlockValidationWrongVersion"},
	{"parent-version", "imp(block.MajorVersion == 2, block.Parent.MajorVersion <= 1)", "the parent of a version 2 block is of version 1 at most", "ErrBlockValidationParentBlockWrongVersion"},
	{"parent-size", "imp(block.MajorVersion == 2, len(ParentBlock.serialize(block.Parent, false)) <= 2048) && imp(block.MajorVersion == 3, len(ParentBlock.serialize(block.Parent, false)) <= 2048)", "the parent of a version 2 or 3 block is not larger than 2048 bytes", "ErrBlockValidationParentBlockSizeTooBig"},
	{"not-in-future", "block.Timestamp <= Timestamp(_) + BlockFutureTimeLimit(_, block.MajorVersion)", "the timestamp is not further ahead of the clock than allowed", "ErrBlockValidationTimestampTooFarInFuture"},
	{"not-before-median", "imp(BlockTimestampCheckWindow(_, block.MajorVersion) <= anyconv(len(v_ts)), block.Timestamp >= MedianSlice(v_ts))", "with a full window of preceding timestamps the block's timestamp is not below their median", "ErrBlockValidationTimestampTooFarInPast"},
	{"median-window", "imp(BlockTimestampCheckWindow(_, block.MajorVersion) <= anyconv(len(either(SliceReverse(joinof(append(v_ts, v_b.Timestamp), v_ts)), joinof(append(v_ts, v_b.Timestamp), v_ts)))), block.Timestamp >= MedianSlice(_)) && init(v_ts, _) && init(v_b, " + prevP + ") && " +
		"all(i, _, within(i, BlockTimestampCheckWindow(_, block.MajorVersion)) && step(v_ts, append(v_ts, v_b.Timestamp)) && step(v_b, GetBlock(_, v_b.PreviousBlockHash)))", "the window holds the timestamps of the predecessors, at most the configured number", ""},
}

var rulesC03 = []R{
	{"one-input", "len(block.BaseTransaction.Inputs) == 1", "the base transaction has exactly one input", "ErrTransactionInputWrongCount"},
	{"coinbase-input", "is(block.BaseTransaction.Inputs[0], InputCoinbase)", "that input is a coinbase input", "ErrTransactionInputUnexpectedType"},
	{"input-height", "as(block.BaseTransaction.Inputs[0], InputCoinbase).BlockIndex == Block.Index(" + prevP + ") + 1", "the coinbase input names the block's height", "ErrTransactionBaseInputWrongBlockIndex"},
	{"unlock-height", "block.BaseTransaction.UnlockHeight == Block.Index(" + prevP + ") + 1 + MinedMoneyUnlockWindow(_)", "the reward unlocks one unlock window after the block", "ErrTransactionWrongUnlockTime"},
	{"no-signatures", "len(block.BaseTransaction.TransactionSignatures) == 0", "the base transaction carries no signatures", "ErrTransactionBaseInvalidSignaturesCount"},
	{"outputs-nonzero", "all(i, block.BaseTransaction.Outputs, block.BaseTransaction.Outputs[i].Amount != 0)", "no output of the base transaction is zero", "ErrTransactionOutputZeroAmount"},
	{"outputs-known-type", "all(i, block.BaseTransaction.Outputs, imp(!is(block.BaseTransaction.Outputs[i].Target, OutputKey), is(block.BaseTransaction.Outputs[i].Target, OutputMultisignature)))", "every output is a key or a multisignature output", "ErrTransactionOutputUnknownType"},
	{"outputs-valid-key", "all(i, block.BaseTransaction.Outputs, imp(is(block.BaseTransaction.Outputs[i].Target, OutputKey), PublicKey.Check(as(block.BaseTransaction.Outputs[i].Target, OutputKey).PublicKey)))", "every output key is a valid point", "ErrTransactionOutputInvalidKey"},
	{"outputs-required-signatures", "all(i, block.BaseTransaction.Outputs, imp(is(block.BaseTransaction.Outputs[i].Target, OutputMultisignature), anyconv(as(block.BaseTransaction.Outputs[i].Target, OutputMultisignature).RequiredSignaturesCount) <= len(as(block.BaseTransaction.Outputs[i].Target, OutputMultisignature).Keys)))", "a multisignature output does not require more signatures than it has keys", "ErrTransactionOutputInvalidRequiredSignaturesCount"},
	{"outputs-valid-multisig-keys", "all(i, block.BaseTransaction.Outputs, imp(is(block.BaseTransaction.Outputs[i].Target, OutputMultisignature), all(k, as(block.BaseTransaction.Outputs[i].Target, OutputMultisignature).Keys, PublicKey.Check(as(block.BaseTransaction.Outputs[i].Target, OutputMultisignature).Keys[k]))))", "every multisignature key is a valid point", "ErrTransactionOutputInvalidMultisignatureKey"},
	{"outputs-no-overflow", "all(i, block.BaseTransaction.Outputs, noovf(v_sum, block.BaseTransaction.Outputs[i].Amount) && step(v_sum, v_sum + block.BaseTransaction.Outputs[i].Amount)) && init(v_sum, 0)", "the sum of the outputs does not overflow", "ErrTransactionOutputsAmountOverflow"},
	{"extra-size", "imp(Block.Index(block) >= 500000, len(block.BaseTransaction.Extra) <= 1024)", "from index 500000 the extra field is at most 1024 bytes", "ErrTransactionExtraTooLarge"},
	{"v5-extra", "imp(block.MajorVersion >= 5, r1(ParseExtra(block.BaseTransaction)) == nil) && imp(block.MajorVersion >= 5, r0(ParseExtra(block.BaseTransaction)).MiningTag == nil)", "from version 5 the extra field parses and has no merge mining tag", "ErrBlockValidationBaseTransactionExtraMMTag"},
	{"v5-one-output", "imp(block.MajorVersion >= 5, len(block.BaseTransaction.Outputs) == 1)", "from version 5 there is exactly one output", "ErrTransactionOutputsInvalidCount"},
	{"v5-key-output", "imp(block.MajorVersion >= 5, is(block.BaseTransaction.Outputs[0].Target, OutputKey))", "from version 5 it is a key output", "ErrTransactionBaseOutputWrongType"},
}

var rulesC04 = []R{
	{"hash-list-length", "len(block.TransactionsHashes) == len(raw)", "as many transactions as hashes", "ErrAddBlockTransactionCountNotMatch"},
	{"hash-list-content", "all(i, " + txsP + ", Transaction.Hash(v_t[i]) == block.TransactionsHashes[i])", "transaction i has the i-th hash of the block", "ErrBlockValidationTransactionInconsistency"},
	{"no-duplicates", eachTx("ev(\"putfresh\", v_m, Transaction.Hash(v_t[i]), etc) && outside(v_m, i)"), "no transaction occurs twice in the block", "ErrBlockValidationDuplicateTransaction"},
}

const feeP = "v_fee"
const rewardP = "GetBlockReward(_, block.MajorVersion, MedianSlice(_), Transaction.Size(block.BaseTransaction) + v_size, " + prevInfoP + ".TotalGeneratedCoins, v_fee)"
const coinP = "init(v_reward, 0) && all(i, block.BaseTransaction.Outputs, step(v_reward, v_reward + block.BaseTransaction.Outputs[i].Amount))"

var rulesC05 = []R{
	{"reward-equals", "r0(" + rewardP + ") == v_reward && " + coinP, "the outputs of the base transaction sum to the computed reward exactly", "ErrBlockValidationBlockRewardMismatch"},
	{"reward-computed", "r2(" + rewardP + ") == nil", "the reward could be computed for the block size", ""},
	{"reward-fees", "r0(" + rewardP + ") == v_reward && init(v_fee, 0) && " + eachTx("step(v_fee, v_fee + minus(v_in, v_out)) && init(v_in, 0) && init(v_out, 0) && all(j, v_t[i].Inputs, step(v_in, v_in + as(v_t[i].Inputs[j], InputKey).Amount)) && all(j, v_t[i].Outputs, step(v_out, v_out + v_t[i].Outputs[j].Amount))"), "the fees added to the reward are the inputs minus the outputs of every transaction", ""},
	{"reward-size", "r0(" + rewardP + ") == v_reward && init(v_size, 0) && all(i, raw, step(v_size, v_size + len(raw[i])))", "the size used for the reward is the base transaction plus every delivered transaction", ""},
}

const nextDiffP = "NextDifficulty(_, Block.Index(" + prevP + "), _, _, _)"

var rulesC06 = []R{
	{"difficulty-computed", "r1(NextDifficulty(_, _, _, _, _)) == nil && r0(NextDifficulty(_, _, _, _, _)) != 0", "a non-zero difficulty was computed for the block", "ErrBlockValidationDifficultyOverhead ErrAddBlockFailedGetDifficulty"},
	{"difficulty-version", "r0(NextDifficulty(_, _, GetBlockMajorVersion(_, Block.Index(" + prevP + ")), _, _)) != 0 || r0(NextDifficulty(_, _, GetBlockMajorVersion(_, Block.Index(block)), _, _)) != 0 || r0(NextDifficulty(_, _, block.MajorVersion, _, _)) != 0", "the difficulty is computed for the version in force at the block", ""},
	{"block-signature", "imp(block.MajorVersion >= 5, Signature.Check(block.Signature, HashFromBytes(Block.HashingBytes(block)), as(block.BaseTransaction.Outputs[0].Target, OutputKey).PublicKey))", "from version 5 the block is signed over its hashing bytes with the key its reward is paid to", "ErrBlockValidationBlockSignatureMismatch"},
}

const pushP = `ev("Storage.PushBlock", _, block, `

var rulesC08 = []R{
	{"stored-transactions", pushP + "_, TransactionsDetails{transactions: v_t}) && all(i, " + txsP + ", Transaction.Hash(v_t[i]) == block.TransactionsHashes[i])", "the stored transactions are the validated ones", ""},
	{"stored-key-images", pushP + "_, TransactionsDetails{spentKeyImages: v_k}) && init(v_k, nil) && " +
		"all(n, _, step(v_k, append(v_k, key(v_m)))) && " + eachTx(`all(j, v_t[i].Inputs, imp(is(v_t[i].Inputs[j], InputKey), ev("putfresh", v_m, as(v_t[i].Inputs[j], InputKey).KeyImage, etc) && outside(v_m, i)))`), "every key image spent by the block is handed to the storage", ""},
	{"stored-after-checks", "PushBlock(_, block, _, _) == nil", "success implies that the storage accepted the block", ""},
	{"stored-info-identity", pushP + "blockInfo{Index: Block.Index(block), Hash: Block.Hash(block), Timestamp: block.Timestamp}, _)", "the stored record carries the block's own index, hash and timestamp", ""},
	{"stored-info-size", pushP + "blockInfo{Size: Transaction.Size(block.BaseTransaction) + v_size}, _) && init(v_size, 0) && all(i, raw, step(v_size, v_size + len(raw[i])))", "the stored size is the base transaction plus every transaction", ""},
	{"stored-info-difficulty", pushP + "blockInfo{CumulativeDifficulty: " + prevInfoP + ".CumulativeDifficulty + r0(NextDifficulty(_, _, _, _, _))}, _)", "the cumulative difficulty is the predecessor's plus the block's", ""},
	{"stored-info-coins", pushP + "blockInfo{TotalGeneratedCoins: " + prevInfoP + ".TotalGeneratedCoins + anyconv(r1(GetBlockReward(_, _, _, _, _, _)))}, _)", "the generated coins are the predecessor's plus the emission of the block", ""},
	{"stored-info-transactions", pushP + "blockInfo{TotalGeneratedTransactions: " + prevInfoP + ".TotalGeneratedTransactions + len(block.TransactionsHashes)}, _)", "the transaction counter grows by the block's transactions", ""},
	{"tip-moves", `ev("set", bc.bestTip, block)`, "the top block becomes the added block", ""},
}

var rulesC09 = []R{
	{"coinbase-size", "Transaction.Size(block.BaseTransaction) <= bc.Network.MaxTxSize", "the base transaction is within the size limit", "ErrAddBlockTransactionCoinbaseMaxSize"},
	{"transaction-size", "all(i, raw, len(raw[i]) <= bc.Network.MaxTxSize)", "every transaction blob is within the size limit", "ErrAddBlockTransactionSizeMax"},
	{"block-size", "Transaction.Size(block.BaseTransaction) + v_size <= MaxBlockSize(_, anyconv(Block.Index(block))) && init(v_size, 0) && all(i, raw, step(v_size, v_size + len(raw[i])))", "the cumulative size is within the limit for the block's height", "ErrBlockValidationCumulativeSizeTooBig"},
	{"median-window", "r0(GetBlockReward(_, block.MajorVersion, MedianSlice(either(SliceReverse(v_s), v_s)), _, _, _)) == _ && (" + backwards("RewardBlockWindow(_)", "v_s", "Size", true) + ")", "the size median is taken over the last reward window of blocks, ending early only at the start of the chain", ""},
	{"difficulty-window", "r0(NextDifficulty(_, _, _, either(SliceReverse(v_ts), v_ts), either(SliceReverse(v_d), v_d))) != 0 && init(v_b, " + prevP + ") && " +
		"all(i, _, step(v_ts, append(v_ts, v_b.Timestamp)) && step(v_b, GetBlock(_, v_b.PreviousBlockHash))) && (" + backwards("DifficultyBlocksCountByBlockVersion(_, _)", "v_d", "CumulativeDifficulty", false) + ")", "difficulty is computed from the timestamps and cumulative difficulties of consecutive predecessors, at most the configured number", ""},
}

const inP = "v_t[i].Inputs[j]"
const kinP = "as(v_t[i].Inputs[j], InputKey)"
const outP = "v_t[i].Outputs[j]"

// backwards: the list holds the field of the infos of consecutive predecessors, at most n of them,
// whichever way the loop goes down (and, where full is asked for, fewer only when the chain ends)
func backwards(n, list, field string, full bool) string {
	at := func(x string) string { return "getBlockInfoAtIndex(_, " + x + ")" }
	here := "minus(" + prevIdxP + ", i)"
	exit := func(x string) string {
		if !full {
			return ""
		}
		return " && imp(" + x + " != nil, done(i, " + n + "))"
	}
	// the info of the next round is fetched at the end of a round
	kept := func(next, more string) string {
		return "init(v_i, " + prevInfoP + ")" + more + " && all(i, _, within(i, " + n + ") && step(" + list + ", append(" + list + ", v_i." + field + ")) && step(v_i, " + at(next) + ")" +
			strings.Replace(more, " && init(v_n, "+prevIdxP+")", " && step(v_n, v_n - 1)", 1) + ")" + exit("v_i")
	}
	// or at its start
	fetched := func(x string) string {
		return "all(i, _, within(i, " + n + ") && step(" + list + ", append(" + list + ", " + at(x) + "." + field + ")))" + exit(at(x))
	}
	return strings.Join([]string{
		kept("minus("+prevIdxP+" - 1, i)", ""), kept("minus("+prevIdxP+", i) - 1", ""), kept("v_i.Index - 1", ""),
		kept("v_n - 1", " && init(v_n, "+prevIdxP+")"), fetched(here),
	}, " || ")
}

func eachKeyIn(p string) string {
	return eachTx("all(j, v_t[i].Inputs, imp(is(" + inP + ", InputKey), " + p + "))")
}
func eachOut(p string) string { return eachTx("all(j, v_t[i].Outputs, " + p + ")") }

var rulesT01 = []R{
	{"inputs-present", eachTx("len(v_t[i].Inputs) != 0"), "every transaction has inputs", "ErrTransactionEmptyInputs"},
	{"inputs-known-type", eachTx("all(j, v_t[i].Inputs, is(" + inP + ", InputKey) || imp(!is(" + inP + ", InputKey), is(" + inP + ", InputMultiSignature)))"), "every input is a key or a multisignature input", "ErrTransactionInputUnknownType"},
	{"output-references", eachKeyIn("len(" + kinP + ".OutputIndexes) != 0"), "every key input references at least one output", "ErrTransactionInputEmptyOutputUsage"},
	{"key-image-unique-in-block", eachKeyIn(`ev("putfresh", v_m, ` + kinP + `.KeyImage, etc) && outside(v_m, i)`), "no key image occurs twice", "ErrTransactionInputIdenticalKeyImages ErrTransactionInputKeyImageAlreadySpent"},
	{"offsets-unique", eachKeyIn("SliceIsUniqueUint32(" + kinP + ".OutputIndexes)"), "the output references of an input are distinct", "ErrTransactionInputIdenticalOutputIndexes"},
}
var rulesT01out = []R{
	{"key-image-domain", eachKeyIn("r1(ScalarMult("+kinP+".KeyImage, LImage)) == nil") + " && " + eachKeyIn("r0(ScalarMult("+kinP+".KeyImage, LImage)) == IImage"), "outside the checkpoints the key image lies in the prime order subgroup", "ErrTransactionInputInvalidDomainKeyImages"},
	{"not-spent", eachKeyIn("!IsSpent(_, " + kinP + ".KeyImage, Block.Index(block))"), "outside the checkpoints the key image is not spent in the chain", "ErrTransactionInputKeyImageAlreadySpent"},
}

var rulesT02 = []R{
	{"amount-nonzero", eachOut(outP + ".Amount != 0"), "no output amount is zero", "ErrTransactionOutputZeroAmount"},
	{"amount-decomposed", eachOut("imp(Block.Index(block) >= 700000, IsValidDecomposedAmount(_, " + outP + ".Amount))"), "from index 700000 every output amount is a canonical denomination", "ErrTransactionOutputInvalidDecomposedAmount"},
	{"known-type", eachOut("imp(!is(" + outP + ".Target, OutputKey), is(" + outP + ".Target, OutputMultisignature))"), "every output is a key or a multisignature output", "ErrTransactionOutputUnknownType"},
	{"valid-key", eachOut("imp(is(" + outP + ".Target, OutputKey), PublicKey.Check(as(" + outP + ".Target, OutputKey).PublicKey))"), "every output key is a valid point", "ErrTransactionOutputInvalidKey"},
	{"required-signatures", eachOut("imp(is(" + outP + ".Target, OutputMultisignature), anyconv(as(" + outP + ".Target, OutputMultisignature).RequiredSignaturesCount) <= len(as(" + outP + ".Target, OutputMultisignature).Keys))"), "a multisignature output does not require more signatures than it has keys", "ErrTransactionOutputInvalidRequiredSignaturesCount"},
	{"valid-multisig-keys", eachOut("imp(is(" + outP + ".Target, OutputMultisignature), all(k, as(" + outP + ".Target, OutputMultisignature).Keys, PublicKey.Check(as(" + outP + ".Target, OutputMultisignature).Keys[k])))"), "every multisignature key is a valid point", "ErrTransactionOutputInvalidMultisignatureKey"},
}

const sumsP = "init(v_in, 0) && init(v_out, 0) && all(j, v_t[i].Inputs, step(v_in, v_in + either(" + kinP + ".Amount, v_amt))) && all(j, v_t[i].Outputs, step(v_out, v_out + " + outP + ".Amount))"

var rulesT03 = []R{
	{"inputs-no-overflow", eachTx("all(j, v_t[i].Inputs, noovf(v_in, " + kinP + ".Amount) && step(v_in, v_in + " + kinP + ".Amount)) && init(v_in, 0)"), "the sum of the inputs does not overflow", "ErrTransactionInputsAmountOverflow"},
	{"outputs-no-overflow", eachTx("all(j, v_t[i].Outputs, noovf(v_out, " + outP + ".Amount) && step(v_out, v_out + " + outP + ".Amount)) && init(v_out, 0)"), "the sum of the outputs does not overflow", "ErrTransactionOutputsAmountOverflow"},
	{"outputs-covered", eachTx(sumsP + " && v_out <= v_in"), "the outputs do not exceed the inputs", "ErrTransactionWrongAmount"},
	{"sums-nonzero", eachTx(sumsP + " && v_in != 0 && v_out != 0"), "neither sum is zero", ""},
}

const feeTermP = "minus(v_in, v_out)"
const feeSums = "init(v_in, 0) && init(v_out, 0) && all(j, v_t[i].Inputs, imp(is(" + inP + ", InputKey), step(v_in, v_in + " + kinP + ".Amount))) && all(j, v_t[i].Outputs, step(v_out, v_out + " + outP + ".Amount))"

// fusion answer assumed false / true
var rulesT03plain = []R{
	{"minimal-fee", eachTx(feeTermP + " >= MinimalFeeValidator(_, Block.Index(block)) && " + feeSums), "a transaction that is not a fusion transaction pays the minimal fee of its height", "ErrTransactionInvalidFee"},
}
var rulesT03fusion = []R{
	{"fusion-without-fee", eachTx("imp(" + feeTermP + " != 0, " + feeTermP + " >= MinimalFeeValidator(_, Block.Index(block)))"), "only a transaction without a fee is exempt as a fusion transaction", ""},
}

const extraFeeP = "MinimalFee(_, Block.Index(block)) + GetFeePerByte(_, anyconv(len(v_t[i].Extra)), MinimalFee(_, Block.Index(block)))"

var rulesT04 = []R{
	{"ring-signature", eachKeyIn("CheckRingSignature(TransactionPrefix.Hash(v_t[i]), " + kinP + ".KeyImage, r0(ExtractKeyOutputKeys(_, " + kinP + ".Amount, Block.Index(block), v_g)), v_t[i].TransactionSignatures[j], etc)"), "outside the checkpoints every key input carries a ring signature of the prefix hash by the referenced output keys, made with the input's own signatures", "ErrTransactionInputInvalidSignatures"},
	{"ring-keys-found", eachKeyIn("r1(ExtractKeyOutputKeys(_, " + kinP + ".Amount, Block.Index(block), v_g)) == nil"), "the referenced outputs were found", ""},
	{"ring-size", eachKeyIn("len(v_t[i].TransactionSignatures[j]) == len(r0(ExtractKeyOutputKeys(_, " + kinP + ".Amount, Block.Index(block), v_g)))"), "one signature per referenced output", "ErrTransactionInputInvalidSignaturesCount"},
	{"ring-references", eachKeyIn("r1(ExtractKeyOutputKeys(_, " + kinP + `.Amount, Block.Index(block), v_g)) == nil && ev("setelem", v_g, 0, ` + kinP + `.OutputIndexes[0]) && all(n, _, ev("setelem", v_g, n + 1, ` + kinP + ".OutputIndexes[n + 1] + v_g[n]))"), "the referenced indexes are the running sums of the offsets", ""},
	{"key-inputs-only", eachTx("all(j, v_t[i].Inputs, is(" + inP + ", InputKey))"), "no other kind of input is accepted outside the checkpoints", ""},
}

const minP = "as(" + inP + ", InputMultiSignature)"
const moeP = "IsMultiSignatureOutputExists(_, " + minP + ".Amount, " + minP + ".OutputIndex, Block.Index(block))"

func eachMultiIn(p string) string {
	return eachTx("all(j, v_t[i].Inputs, imp(is(" + inP + ", InputMultiSignature), " + p + "))")
}

var rulesT01multi = []R{
	{"multisig-output-exists", eachMultiIn("r2(" + moeP + ")"), "the referenced multisignature output exists", "ErrTransactionInputInvalidGlobalIndex"},
	{"multisig-not-spent", eachMultiIn("!IsMultiSignatureSpent(_, " + minP + ".Amount, " + minP + ".OutputIndex, Block.Index(block))"), "the referenced multisignature output is not spent", ""},
	{"multisig-unlocked", eachMultiIn("IsTransactionSpendTimeUnlocked(_, r1(" + moeP + "), Block.Index(block))"), "the referenced multisignature output is unlocked", "ErrTransactionInputSpendLockedOut"},
	{"multisig-signature-count", eachMultiIn("r0(" + moeP + ").RequiredSignaturesCount == " + minP + ".SignatureCount"), "the input announces the number of signatures the output requires", "ErrTransactionInputWrongSignaturesCount"},
}

var rulesT05 = []R{
	{"size", eachTx("Transaction.Size(v_t[i]) <= MaxTransactionSize(_, Block.Index(block))"), "every transaction is within the size limit of its height", "ErrTransactionSizeTooLarge"},
	{"mixin-counted", eachTx("init(v_mix, 0) && all(j, v_t[i].Inputs, imp(is(" + inP + ", InputKey), step(v_mix, max(v_mix, len(" + kinP + ".OutputIndexes)))))"), "the mixin is the largest number of outputs an input refers to", ""},
}

const mixP = "init(v_mix, 0) && all(j, v_t[i].Inputs, imp(is(" + inP + ", InputKey), step(v_mix, max(v_mix, len(" + kinP + ".OutputIndexes)))))"

var rulesT05max = []R{
	{"mixin-maximum", eachTx(mixP + " && v_mix <= MaxMixin(_)"), "above index 216394 the mixin is at most the maximum", "ErrTransactionInvalidMixin"},
}
var rulesT05min = []R{
	{"mixin-minimum", eachTx(mixP + " && (imp(v_mix != 1, v_mix >= MinMixin(_)) || imp(v_mix <= MinMixin(_) - 1, v_mix == 1))"), "above index 266000 the mixin is one or at least the minimum", ""},
}
var rulesT05extra = []R{
	{"extra-fee", eachTx("imp(" + extraFeeP + " != 0, " + feeTermP + " >= " + extraFeeP + ") && " + feeSums), "from index 667000 the fee also covers the extra field", ""},
}
var rulesT05extra80 = []R{
	{"extra-fee-reduced", eachTx("imp(" + extraFeeP + " != 0, " + feeTermP + " >= minus(" + extraFeeP + ", (" + extraFeeP + ") * 20 / 100)) && " + feeSums), "between 500001 and 666999 the fee covers 80% of the requirement with the extra field", ""},
}

var rulesC06zone = []R{
	{"checkpoint", "CheckBlock(_, Block.Index(block), Block.Hash(block)) == nil", "inside the checkpoints the block's hash matches the checkpoint of its index", "ErrBlockValidationCheckpointBlockHashMismatch"},
}
var rulesC06pow = []R{
	{"proof-of-work", "checkProofOfWork(_, block, r0(NextDifficulty(_, _, _, _, _))) == nil", "outside the checkpoints the proof of work is checked against the difficulty of the block", "ErrBlockValidationProofOfWorkTooWeak"},
}
var rulesC04chain = []R{
	{"not-in-chain", eachTx("imp(Block.Index(" + prevP + ") == Block.Index(bc.bestTip), !hasTransaction(_, Transaction.Hash(v_t[i])))"), "when the block extends the top, no transaction of it is already in the chain", ""},
}

// Functions of the chain that are placeholders today: they are kept opaque where a rule speaks about
// what the callers do with their answers.
var stubNames = nameList(`cryptonote.BlockChain.IsMultiSignatureOutputExists cryptonote.BlockChain.IsMultiSignatureSpent cryptonote.BlockChain.IsSpent
cryptonote.BlockChain.hasTransaction cryptonote.BlockChain.ExtractKeyOutputKeys cryptonote.BlockChain.checkProofOfWork cryptonote.blockTransactionsValidator.IsFusionTransaction
cryptonote.BlockChain.IsTransactionSpendTimeUnlocked`)

func nameList(s string) []string { return strings.Fields(s) }

// chainRun analyses AddBlock once per configuration.
func (c *Ctx) addBlock(label string, cfg EngCfg, seeds ...Seed) *Run {
	if r, ok := c.runs[label]; ok {
		return r
	}
	fn := c.fn("cryptonote", "BlockChain", "AddBlock")
	r := c.run(label, fn, cfg, []string{"bc", "block", "raw"}, seeds...)
	c.runs[label] = r
	return r
}

func (r *Run) rules(rs []R) {
	for _, x := range rs {
		r.must(x.rule, x.pat, x.mean)
	}
}

func (c *Ctx) rulesOn(r *Run, rs []R) {
	if r == nil {
		return
	}
	r.rules(rs)
	c.counts["rules on "+fname(r.fn)+" ["+r.label+"]"] += len(rs)
}

var _ = fmt.Sprint
var _ *ssa.Function

const chainExplain = "Must-facts over every path of BlockChain.AddBlock: the function and everything it calls are interpreted abstractly over the SSA form, with branch facts, loop-quantified facts and an abstract heap; each rule is a predicate that has to hold in the abstract state of every return without an error. "

func runBase(c *Ctx) *Run { return c.addBlock("", chainCfg()) }
func runZone(c *Ctx) *Run {
	return c.addBlock("inside the checkpoints", zoneFix(chainCfg(stubNames...), true, nil))
}
func runOut(c *Ctx) *Run {
	return c.addBlock("outside the checkpoints", zoneFix(chainCfg(stubNames...), false, map[string]bool{fusionName: false}))
}
func runFusion(c *Ctx) *Run {
	return c.addBlock("fusion", zoneFix(chainCfg(stubNames...), true, map[string]bool{fusionName: true}))
}
func runPlain(c *Ctx, label string, seeds ...Seed) *Run {
	return c.addBlock("not a fusion, "+label, zoneFix(chainCfg(stubNames...), true, map[string]bool{fusionName: false}), seeds...)
}

const fusionName = "cryptonote.blockTransactionsValidator.IsFusionTransaction"

func init() {
	A := []string{"Go type and SSA construction of golang.org/x/tools", "functions named in the opaque table are deterministic functions of their arguments; they have their own rules"}
	reg := func(id, title, what string, run func(c *Ctx)) { register(id, title, chainExplain+what, A, run) }
	base := func(id, title, what string, rs []R, more ...func(c *Ctx)) {
		reg(id, title, what, func(c *Ctx) {
			c.rulesOn(runBase(c), rs)
			for _, m := range more {
				m(c)
			}
		})
	}
	base("C01", "", "Rules: linking to the predecessor.", rulesC01)
	base("C02", "", "Rules: version and timestamps.", rulesC02, func(c *Ctx) {
		c.tables(tSchedule(), tFuture(), tTsWindow())
		c.medianRule()
		c.reverseRule()
	})
	base("C03", "", "Rules: base transaction.", rulesC03, func(c *Ctx) { c.tables(tUnlock()) })
	reg("C04", "", "Rules: transactions against the block.", func(c *Ctx) {
		c.rulesOn(runBase(c), rulesC04)
		c.rulesOn(runZone(c), rulesC04chain)
		c.gate("gate-answers", "cryptonote", "BlockChain", "hasTransaction")
		c.rawTransactions("decoded-from-delivery", c.fn("cryptonote", "BlockChain", "deserializeTransactions"), 2)
		c.hashes("transaction-hash", "", c.fn("cryptonote", "Transaction", "Hash"), txGrammar())
	})
	base("C05", "", "Rules: reward.", rulesC05, func(c *Ctx) {
		c.tables(tReward())
		c.medianRule()
	})
	reg("C06", "", "Rules: seal.", func(c *Ctx) {
		c.rulesOn(runBase(c), rulesC06)
		c.rulesOn(runZone(c), rulesC06zone)
		c.rulesOn(runOut(c), rulesC06pow)
		c.gate("gate-answers", "cryptonote", "BlockChain", "checkProofOfWork")
	})
	base("C08", "", "Rules: stored.", rulesC08)
	base("C09", "", "Rules: sizes and windows.", rulesC09, func(c *Ctx) {
		c.tables(tMaxBlock(), tRewardWindow(), tDiffWindow())
		c.medianRule()
		c.reverseRule()
	})
	reg("T01", "", "Rules: inputs", func(c *Ctx) {
		c.rulesOn(runBase(c), rulesT01)
		c.rulesOn(runOut(c), rulesT01out)
		c.rulesOn(runZone(c), rulesT01multi)
		c.gate("gate-answers", "cryptonote", "BlockChain", "IsSpent")
		c.gate("gate-answers", "cryptonote", "BlockChain", "IsMultiSignatureSpent")
		c.gate("gate-answers", "cryptonote", "BlockChain", "IsMultiSignatureOutputExists")
		c.gate("gate-answers", "cryptonote", "BlockChain", "IsTransactionSpendTimeUnlocked")
		c.uniqueRule()
	})
	base("T02", "", "Rules: outputs", rulesT02, func(c *Ctx) { c.tables(tDenominations()) })
	reg("T03", "", "Rules: amounts", func(c *Ctx) {
		c.rulesOn(runBase(c), rulesT03)
		c.rulesOn(runPlain(c, "any height"), rulesT03plain)
		c.rulesOn(runFusion(c), rulesT03fusion)
		c.tables(tMinFeeV())
	})
	reg("T04", "", "Rules: ring signatures", func(c *Ctx) {
		c.rulesOn(runOut(c), rulesT04)
		c.gateAt("gate-answers", "cryptonote", "BlockChain", "ExtractKeyOutputKeys", 0)
		c.hashes("prefix-hash", "", c.fn("cryptonote", "TransactionPrefix", "Hash"), prefixGrammar)
	})
	reg("T05", "", "Rules: transaction limits", func(c *Ctx) {
		c.rulesOn(runBase(c), rulesT05)
		c.rulesOn(runPlain(c, "index > 216394", seedIndex(1, 216395, -1)), rulesT05max)
		c.rulesOn(runPlain(c, "index > 266000", seedIndex(1, 266001, -1)), rulesT05min)
		c.rulesOn(runPlain(c, "index >= 667000", seedIndex(1, 667000, -1)), rulesT05extra)
		c.rulesOn(runPlain(c, "500000 < index < 667000", seedIndex(1, 500001, 666999)), rulesT05extra80)
		c.tables(tMaxTx(), tMinFee(), tFeeByte())
		c.tables(tMixin()...)
	})
}
