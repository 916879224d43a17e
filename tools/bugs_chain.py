def T(body): return "package cryptonote\n\nimport \"testing\"\n\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"

bug("c02-median-window-v4", "C02", "cryptonote/chain.go", [("\tif uint32(len(lastTimestamps)) >= timestampCheckWindow {\n", "\tif uint32(len(lastTimestamps)) > timestampCheckWindow {\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 100000, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	b.Timestamp = p.Timestamp - 100*240
	demoRefuse(t, bc, b, raw, "timestamp below the median of a full window")
"""), "a chain longer than the timestamp window and a block dated before the median of the window",
 "the collected window never holds more than the configured number of timestamps, so the past-timestamp rule is never applied")

bug("c03-extra-boundary", "C03", "cryptonote/chain.go", [("block.Index() >= config.UpgradeHeightV4s2 && len(block.BaseTransaction.Extra) > config.MaxExtraSize", "block.Index() > config.UpgradeHeightV4s2 && len(block.BaseTransaction.Extra) > config.MaxExtraSize")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 499999, 500, 500)
	b, raw := demoBlock(t, bc, p, 0)
	b.BaseTransaction.Extra = append(b.BaseTransaction.Extra, make([]byte, 2000)...)
	if err := bc.AddBlock(demoSeal(t, b), raw); err != ErrTransactionExtraTooLarge {
		t.Fatalf("block 500000 with an extra field of 2033 bytes: %v", err)
	}
"""), "a block at exactly height 500000 with a base transaction extra field over 1024 bytes",
 "the limit on the extra field starts one block late")

bug("c05-fee-last-transaction", "C05", "cryptonote/transaction_validator.go", [("\tvalidator.cumulativeFee += fee\n", "\tif fee > validator.cumulativeFee {\n\t\tvalidator.cumulativeFee = fee\n\t}\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 5e8, demoTx(1, []uint64{3e9}, []uint64{28e8}), demoTx(2, []uint64{3e9}, []uint64{27e8}))
	demoAccept(t, bc, b, raw, "block claiming the fees of both transactions")
"""), "a block with two fee paying transactions",
 "only the largest fee is added to the reward, so blocks with several paying transactions are refused (or underpay)")

bug("c08-key-images-of-last-input", "C08", "cryptonote/chain.go", [("\t\ttransactionsDetails.spentKeyImages = append(\n\t\t\ttransactionsDetails.spentKeyImages, keyImage,\n\t\t)\n", "\t\ttransactionsDetails.spentKeyImages = []crypto.KeyImage{keyImage}\n")],
 "package cryptonote\n\nimport (\n\t\"testing\"\n\n\t\"github.com/r3volut1oner/go-karbo/crypto\"\n)\n\nvar _ crypto.Hash\n" + """
func TestVerifDemo(t *testing.T) {
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 2e8, demoTx(1, []uint64{3e9, 4e9, 5e9}, []uint64{118e8}))
	demoAccept(t, bc, b, raw, "three inputs")
	if n := len(*bc.storage.(*memoryStorage).spentKeysImagesIndex[1001]); n != 3 {
		t.Fatalf("%d key images stored", n)
	}
}
""", "a block spending more than one key image", "only one spent key image of the block reaches the storage")

bug("t01-key-image-across-transactions", "T01", "cryptonote/transaction_validator.go", [("\t\t\tif _, ok := validator.spentKeyImages[input.KeyImage]; ok {\n", "\t\t\tif spent, ok := validator.spentKeyImages[input.KeyImage]; ok && !spent {\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	b, raw := demoBlock(t, bc, p, 5e8, demoTx(1, []uint64{3e9}, []uint64{28e8}), demoTx(1, []uint64{3e9}, []uint64{27e8}))
	demoRefuse(t, bc, b, raw, "two transactions spending the same key image")
"""), "two transactions of one block spending the same key image", "double spend across the transactions of a block is accepted")

bug("t03-outputs-overflow", "T03", "cryptonote/transaction_validator.go", [("\t\tif math.MaxUint64-output.Amount < sumOfOutputs {\n", "\t\tif math.MaxUint64-sumOfOutputs < sumOfOutputs {\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 500)
	big := uint64(1) << 63
	b, raw := demoBlock(t, bc, p, 2e8, demoTx(1, []uint64{3e9}, []uint64{big - 1, big + 28e8 + 1}))
	demoRefuse(t, bc, b, raw, "outputs that sum to 2^64 + 28e8")
"""), "a large output following one just below 2^63", "the sum of outputs wraps around: money is created")

bug("t05-mixin-one-input", "T05", "cryptonote/transaction_validator.go", [("\t\tif curMixin > mixin {\n", "\t\tif curMixin > mixin && mixin <= 1 {\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 299990, 500, 500)
	tx := demoTx(1, []uint64{3e11, 4e11}, []uint64{5e11})
	many := func(n int) (r []uint32) {
		for i := 1; i <= n; i++ {
			r = append(r, uint32(i))
		}
		return
	}
	in := tx.Inputs[0].(InputKey)
	in.OutputIndexes = many(3)
	tx.Inputs[0] = in
	in = tx.Inputs[1].(InputKey)
	in.OutputIndexes = many(60)
	tx.Inputs[1] = in
	tx.TransactionSignatures = nil
	for _, i := range tx.Inputs {
		tx.TransactionSignatures = append(tx.TransactionSignatures, make([]crypto.Signature, len(i.(InputKey).OutputIndexes)))
	}
	b, raw := demoBlock(t, bc, p, 2e11, tx)
	demoRefuse(t, bc, b, raw, "mixin 60")
""").replace('import "testing"', 'import (\n\t"testing"\n\n\t"github.com/r3volut1oner/go-karbo/crypto"\n)'), "a transaction whose second input has a larger ring than the first", "the mixin is taken from an early input, so oversized rings pass")

bug("c09-size-window-skips", "C09", "cryptonote/chain.go", [("\tif blockSize > bc.Network.MaxBlockSize(uint64(blockIndex)) {\n", "\tif transactionsSize > bc.Network.MaxBlockSize(uint64(blockIndex)) {\n")],
 T("""
	bc := demoChain(t, true)
	p := demoFiller(t, bc, 1000, 500, 990000)
	b, raw := demoBlock(t, bc, p, 0)
	b.BaseTransaction.Extra = append(b.BaseTransaction.Extra, make([]byte, 1100000)...)
	if err := bc.AddBlock(demoSeal(t, b), raw); err != ErrBlockValidationCumulativeSizeTooBig {
		t.Fatalf("block over the limit: %v", err)
	}
	bc2 := demoChain(t, true)
	p2 := demoFiller(t, bc2, 1000, 500, 1990000)
	b2, raw2 := demoBlock(t, bc2, p2, 0)
	b2.BaseTransaction.Extra = append(b2.BaseTransaction.Extra, make([]byte, 1100000)...)
	if err := bc2.AddBlock(demoSeal(t, b2), raw2); err != ErrBlockValidationCumulativeSizeTooBig {
		t.Fatalf("block over the limit in a chain of large blocks: %v", err)
	}
"""), "a block whose base transaction makes it exceed the size limit", "the base transaction is not counted against the block size limit")
