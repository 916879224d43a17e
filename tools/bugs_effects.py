def ebug(id, prop, file, edits, body, needs, breaks, imports="", pkg="cryptonote", harness="chain"):
    bug(id, prop, file, edits, "package " + pkg + '\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestVerifDemo(t *testing.T) {\n' + body + "}\n", needs, breaks, pkg=pkg, harness=harness)
ebug("n01-late-block", "N01", "cryptonote/chain.go", [("	if block.Timestamp > bc.Network.Timestamp()+bc.Network.BlockFutureTimeLimit(block.MajorVersion) {\n", '''	now, limit := bc.Network.Timestamp(), bc.Network.BlockFutureTimeLimit(block.MajorVersion)
	if block.Timestamp > now+limit || block.MajorVersion >= config.BlockMajorVersion5 && block.Timestamp+limit < now {
''')], '''
	bc := demoChain(t, true)
	prev := demoFiller(t, bc, 700001, 200, 1000)
	b, raw := demoBlock(t, bc, prev, 0)
	b.Timestamp = bc.Network.Timestamp() - 1300
	b = demoSeal(t, b)
	demoAccept(t, bc, b, raw, "a block heard of twenty minutes after it was made")
''', "a block of version 5 that reaches the node late", "a node that hears of the block later refuses it and leaves the chain of the others")
ebug("n01-first-version", "N01", "config/network.go", [("	for majorVersion, upgradeHeight := range n.blockUpgradesMap {\n", "	for majorVersion, upgradeHeight := range n.blockUpgradesMap {\n\t\tif version >= BlockMajorVersion4 {\n\t\t\tbreak\n\t\t}\n"), ("	version := BlockMajorVersion1\n", "	var version = BlockMajorVersion1\n")], '''
	n := MainNet()
	for i := 0; i < 500; i++ {
		if v := n.GetBlockMajorVersion(700001); v != 5 {
			t.Fatalf("version %d", v)
		}
	}
''', "a height above the last upgrade and an unlucky order of the map", "nodes expect different versions of the same block", pkg="config", harness="none")
ebug("p07-keeps-bad-block", "P07", "p2p/notification_response_get_objects.go", [('''		block, err := rawBlock.ToBlock()
		if err != nil {
			p.Shutdown()
			return errors.New(
				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
			)
''', '''		block, err := rawBlock.ToBlock()
		if err != nil {
			defer p.Shutdown()
			name := filepath.Join(os.TempDir(), fmt.Sprintf("block-%d.bin", i))
			_ = ioutil.WriteFile(name, rawBlock.Block, 0600)
			return errors.New(
				fmt.Sprintf("[%s] (%d) failed to convert raw block, kept in %s: %s", p, i, name, err),
			)
'''), ('''	"github.com/r3volut1oner/go-karbo/cryptonote"
''', '''	"github.com/r3volut1oner/go-karbo/cryptonote"
	"io/ioutil"
	"os"
	"path/filepath"
''')], '''
	d := t.TempDir()
	t.Setenv("TMPDIR", d)
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	if err := n.HandleResponseGetObjects(p, NotificationResponseGetObjects{Blocks: []RawBlock{{Block: []byte{9, 9}}}}); err == nil {
		t.Fatal("a broken block was taken")
	}
	if fs, _ := os.ReadDir(d); len(fs) != 0 {
		t.Fatalf("%d files were written", len(fs))
	}
''', "a delivered block that cannot be decoded", "every broken block a peer sends is written to a file", '	"os"\n', pkg="p2p", harness="node_harness")
ebug("p07-unknown-ends", "P07", "p2p/node.go", [("		n.logger.Errorf(\"can't handle notification type: %s\", reflect.TypeOf(nt))\n", "		n.logger.Panicf(\"can't handle notification type: %s\", reflect.TypeOf(nt))\n")], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	defer func() {
		if recover() != nil {
			t.Error("the peer ended the process")
		}
	}()
	b, err := binary.Marshal(NotificationNewBlock{})
	if err != nil {
		t.Fatal(err)
	}
	_ = n.handleNotification(p, &LevinCommand{Command: NotificationNewBlockID, IsNotify: true, Payload: b})
''', "a notification the node decodes but does not handle", "the peer ends the process", '\n	"github.com/r3volut1oner/go-karbo/encoding/binary"\n', pkg="p2p", harness="node_harness")
