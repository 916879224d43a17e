def rbug(id, file, edits, body, needs, breaks, imports="", pkg="p2p", harness="node_harness"):
    bug(id, "R01", file, edits, "package " + pkg + '\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestVerifDemo(t *testing.T) {\n' + body + "}\n", needs, breaks, pkg=pkg, harness=harness)
rbug("r01-mining-tag-order", "cryptonote/block_parent.go", [('''	if tef.MiningTag == nil {
		return errors.New("can't get extra merge mining tag")
	}

	if tef.MiningTag.Depth > 8*32 {
		return errors.New("wrong merge mining tag depth")
	}
''', '''	if tef.MiningTag.Depth > 8*32 {
		return errors.New("wrong merge mining tag depth")
	}

	if tef.MiningTag == nil {
		return errors.New("can't get extra merge mining tag")
	}
''')], '''
	h := make([]byte, 32)
	raw := append([]byte{2, 0, 1}, h...)
	raw = append(raw, 0, 0, 0, 0, 1)
	prefix := []byte{1, 0, 1, 0xff, 5, 0, 0}
	raw = append(raw, prefix...)
	var b Block
	blob := append([]byte{2, 0}, h...)
	blob = append(blob, raw...)
	if err := b.Deserialize(bytes.NewReader(blob)); err == nil {
		t.Fatal("a parent block without a merge mining tag was taken")
	}
''', "a block of version 2 whose parent has no merge mining tag", "decoding the block crashes the node", '	"bytes"\n', pkg="cryptonote", harness="none")
rbug("r01-request-chain-nil", "p2p/node.go", [("		if len(notification.Blocks) == 0 {\n", "		if p.state == PeerStateBeforeHandshake && len(notification.Blocks) == 0 {\n")], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	p.state = PeerStateNormal
	b, err := binary.Marshal(NotificationRequestChain{Blocks: []crypto.Hash{}})
	if err != nil {
		t.Fatal(err)
	}
	_ = n.handleNotification(p, &LevinCommand{Command: NotificationRequestChainID, IsNotify: true, Payload: b})
	type req struct {
		Blocks string `binary:"block_ids,binary"`
	}
	b, err = binary.Marshal(req{})
	if err != nil {
		t.Fatal(err)
	}
	_ = n.handleNotification(p, &LevinCommand{Command: NotificationRequestChainID, IsNotify: true, Payload: b})
	b = append(append([]byte{1, 17, 1, 1, 1, 1, 2, 1, 1, 4, 9}, "block_ids"...), 10, 0)
	_ = n.handleNotification(p, &LevinCommand{Command: NotificationRequestChainID, IsNotify: true, Payload: b})
''', "an empty chain request of a peer that has introduced itself", "looking at the last listed block crashes the node", '\n	"github.com/r3volut1oner/go-karbo/crypto"\n	"github.com/r3volut1oner/go-karbo/encoding/binary"\n')
rbug("r01-no-outputs", "cryptonote/chain.go", [("		if len(block.BaseTransaction.Outputs) != 1 {\n", "		if len(block.BaseTransaction.Outputs) > 1 {\n")], '''
	bc := demoChain(t, true)
	prev := demoFiller(t, bc, 700001, 150, 1000)
	b, raw := demoBlock(t, bc, prev, 0)
	b.BaseTransaction.Outputs = nil
	b = demoSeal(t, b)
	demoRefuse(t, bc, b, raw, "a base transaction without outputs")
''', "a block of version 5 whose base transaction has no outputs", "validating the block crashes the node", pkg="cryptonote", harness="chain")
rbug("r01-orphan", "cryptonote/chain.go", [('''	if prevBlock == nil {
		err := ErrAddBlockRejectedAsOrphaned
		logger.Error(err)
		return err
	}

	if blockIndex != prevBlock.Index()+1 {
''', '''	if prevBlock == nil && blockIndex > bc.bestTip.Index() {
		err := ErrAddBlockRejectedAsOrphaned
		logger.Error(err)
		return err
	}

	if blockIndex != prevBlock.Index()+1 {
''')], '''
	bc := demoChain(t, true)
	prev := demoFiller(t, bc, 200, 150, 1000)
	b, raw := demoBlock(t, bc, prev, 0)
	b.PreviousBlockHash[0] ^= 1
	b.BaseTransaction.Inputs[0] = InputCoinbase{BlockIndex: 7}
	b = demoSeal(t, b)
	demoRefuse(t, bc, b, raw, "a block of a low height whose predecessor is unknown")
''', "a block whose height is not above the top and whose predecessor is unknown", "the missing predecessor is followed and the node crashes", pkg="cryptonote", harness="chain")
