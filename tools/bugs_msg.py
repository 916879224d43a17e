def TM(body, imports=""): return 'package p2p\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestVerifDemo(t *testing.T) {\n' + body + "}\n"
def msgbug(id, file, edits, body, needs, breaks, imports=""): bug(id, "W03", file, edits, TM(body, imports), needs, breaks, pkg="p2p", harness="none")
msgbug("w03-hop-width", "p2p/notification.go", [('	Hop                     uint32   `binary:"hop"`', '	Hop                     uint8    `binary:"hop"`')], '''
	type newBlock struct {
		Block                   RawBlock `binary:"b"`
		CurrentBlockchainHeight uint32   `binary:"current_blockchain_height"`
		Hop                     uint32   `binary:"hop"`
	}
	b, err := binary.Marshal(newBlock{Hop: 1})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := parseNotification(&LevinCommand{Command: 2001, Payload: b}); err != nil {
		t.Fatal(err)
	}
''', "a new block announced by another implementation", "the message is refused: its hop count has another type", '\n	"github.com/r3volut1oner/go-karbo/encoding/binary"\n')
msgbug("w03-pool-list", "p2p/notification.go", [('Transactions []crypto.Hash `binary:"txs"`', 'Transactions []crypto.Hash `binary:"txs,array"`')], '''
	b, err := binary.Marshal(NotificationTxPool{Transactions: []crypto.Hash{{1}, {2}}})
	if err != nil {
		t.Fatal(err)
	}
	if i := bytes.Index(b, []byte("txs")); b[i+3] != 10 || b[i+4] != 64<<2&0xff|1 {
		t.Fatalf("%x", b[i:])
	}
''', "a pool notification exchanged with another implementation", "the hashes are sent as a list of binary strings instead of packed", '	"bytes"\n\n	"github.com/r3volut1oner/go-karbo/crypto"\n	"github.com/r3volut1oner/go-karbo/encoding/binary"\n')
msgbug("w03-request-by-pointer", "p2p/peer.go", [("p.protocol.Notify(NotificationRequestChainID, *n)", "p.protocol.Notify(NotificationRequestChainID, n)")], '''
	a, b := net.Pipe()
	go func() { _, _ = (&LevinProtocol{b}).read() }()
	bc := cryptonote.NewBlockChain(config.MainNet(), cryptonote.NewMemoryStorage(), logrus.New())
	if err := bc.Init(); err != nil {
		t.Fatal(err)
	}
	p := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{a}, NetworkAddress{}, false)
	if err := p.requestChain(bc); err != nil {
		t.Fatal(err)
	}
''', "a peer whose chain is to be requested", "the request cannot be encoded: synchronization never starts", '	"net"\n\n	"github.com/r3volut1oner/go-karbo/config"\n	"github.com/r3volut1oner/go-karbo/cryptonote"\n	"github.com/sirupsen/logrus"\n	"go.uber.org/zap"\n')
