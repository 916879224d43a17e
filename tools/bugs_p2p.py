def NT(imports, body): return "package p2p\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"
N_D = "p2p/node.go"; P_E = "p2p/peer.go"; H_S = "p2p/command_handshake.go"; G_O = "p2p/notification_response_get_objects.go"; P_S = "p2p/peerstore.go"; C_M = "p2p/command.go"; N_F = "p2p/notification.go"
def nbug(id, prop, file, edits, imports, body, needs, breaks): bug(id, prop, file, edits, NT(imports, body), needs, breaks, pkg="p2p", harness="node_harness")

nbug("p01-second-handshake", "P01", H_S, [("	if p.ID != 0 {\n", "	if p.ID != 0 && p.ID == req.NodeData.PeerID {\n")], ["testing"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	if err := n.HandleHandshake(p, demoHello(n, 7)); err != nil {
		t.Fatal(err)
	}
	if err := n.HandleHandshake(p, demoHello(n, 8)); err == nil {
		t.Fatal("a peer introduced itself twice under different identifiers")
	}
''', "a second handshake on the same connection with another identifier", "a peer can change its identity after the handshake")

nbug("p01-network-prefix", "P01", P_E, [("	if n.Config.Network.NetworkID != res.NodeData.NetworkID {\n", "	own, other := n.Config.Network.NetworkID, res.NodeData.NetworkID\n	if string(own[:8]) != string(other[:8]) {\n")], ["testing"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, false)
	go func() {
		proto := &LevinProtocol{c}
		cmd, err := proto.read()
		if err != nil {
			return
		}
		r := NewHandshakeResponse(n.Blockchain, nil)
		r.NodeData.NetworkID[15] ^= 1
		_ = proto.Reply(cmd.Command, r, 1)
	}()
	if _, err := p.handshake(n); err == nil {
		t.Fatal("a peer of another network was admitted")
	}
''', "a network whose identifier shares its first half with ours", "peers of a test network are admitted to the main network")

nbug("p02-removed-late", "P02", G_O, [("		p.requestedBlocks.Remove(hash)\n		transactions[*hash]", "		transactions[*hash]"), ("	if len(p.requestedBlocks) > 0 {\n", "	for _, block := range orderedBlocks {\n		p.requestedBlocks.Remove(block.Hash())\n	}\n\n	if len(p.requestedBlocks) > len(nt.MissedIds) {\n")], ["testing", "strings"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	raw, list := demoBlocks(n, 2)
	p.requestedBlocks = list
	err := n.HandleResponseGetObjects(p, NotificationResponseGetObjects{Blocks: raw[:1], MissedIds: list[1:], CurrentBlockchainHeight: 5})
	if err == nil || !strings.Contains(err.Error(), "not all requested") {
		t.Fatal("a delivery with a missing block went on to the chain: ", err)
	}
''', "a delivery that leaves out requested blocks and lists as many as missed", "an incomplete delivery is offered to the chain")

nbug("p02-surplus-transactions", "P02", G_O, [("		if len(block.TransactionsHashes) != len(rawBlock.Transactions) {\n", "		if len(rawBlock.Transactions) < len(block.TransactionsHashes) {\n")], ["testing", "strings"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	raw, list := demoBlocks(n, 1)
	raw[0].Transactions = [][]byte{{1, 2, 3}}
	p.requestedBlocks = list
	err := n.HandleResponseGetObjects(p, NotificationResponseGetObjects{Blocks: raw, CurrentBlockchainHeight: 5})
	if err == nil || !strings.Contains(err.Error(), "transactions size") {
		t.Fatal("a block with surplus transactions was offered to the chain: ", err)
	}
''', "a block delivered with more transactions than it lists", "surplus transactions reach the chain")

nbug("p03-entry-height-before-update", "P03", N_D, [("		p.remoteHeight = notification.TotalHeight\n		p.lastResponseHeight", "		p.lastResponseHeight"), ("		if lastHeight > uint64(p.remoteHeight) {\n", "		if p.remoteHeight < notification.TotalHeight {\n			p.remoteHeight = notification.TotalHeight\n		}\n\n		if lastHeight > uint64(p.remoteHeight) {\n")], ["testing", "github.com/r3volut1oner/go-karbo/crypto", "github.com/r3volut1oner/go-karbo/encoding/binary"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	p.state = PeerStateSynchronizing
	p.remoteHeight = 1000
	top := n.Blockchain.TopBlock()
	nt := NotificationResponseChainEntry{StartHeight: 100, TotalHeight: 50, BlocksHashes: []crypto.Hash{*top.Hash(), {1}, {2}}}
	b, err := binary.Marshal(nt)
	if err != nil {
		t.Fatal(err)
	}
	err = n.handleNotification(p, &LevinCommand{Command: NotificationResponseChainEntryID, IsNotify: true, Payload: b})
	if err == nil || p.state != PeerStateShutdown {
		t.Fatal("a chain entry that ends above the height it claims is accepted")
	}
''', "a chain entry whose total height is below an earlier one of the same peer", "a contradictory chain entry is accepted and its blocks requested")

nbug("p03-unrequested-kept", "P03", G_O, [("		if !p.requestedBlocks.Has(hash) {\n			p.Shutdown()\n", "		if !p.requestedBlocks.Has(hash) {\n			if i == 0 {\n				p.Shutdown()\n			}\n")], ["testing"], '''
	n, stop := demoNode(t)
	defer stop()
	p, c := demoPeer(n, true)
	demoDrain(c)
	raw, list := demoBlocks(n, 3)
	p.requestedBlocks = list[:2]
	_ = n.HandleResponseGetObjects(p, NotificationResponseGetObjects{Blocks: raw, CurrentBlockchainHeight: 5})
	if p.state != PeerStateShutdown {
		t.Fatal("a peer that delivered a block nobody requested stays connected")
	}
''', "an unrequested block after the first position of a delivery", "the peer stays connected")

nbug("p04-close-error-leaks", "P04", N_D, [('				n.logger.Errorf("failed to close listener: %s", err)\n			}\n\n			n.wg.Done()\n', '				n.logger.Errorf("failed to close listener: %s", err)\n			} else {\n				n.wg.Done()\n			}\n')], ["testing", "time", "net", "context"], '''
	n, stop := demoNode(t)
	defer stop()
	addr, _ := net.ResolveTCPAddr("tcp", "127.0.0.1:0")
	l, err := net.ListenTCP("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	n.context, n.listener = ctx, l
	_ = l.Close()
	cancel()
	n.wg.Add(1)
	go n.runListener()
	done := make(chan struct{})
	go func() { n.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the node waits forever for its listener")
	}
''', "closing the listener fails when the node stops", "the node never ends")

nbug("p06-replaces-same-id", "P06", P_S, [("	if _, ok := pl.peers[p.ID]; ok {\n		return errors", "	if known, ok := pl.peers[p.ID]; ok && known == p {\n		return errors")], ["testing"], '''
	n, stop := demoNode(t)
	defer stop()
	a, _ := demoPeer(n, true)
	b, _ := demoPeer(n, true)
	a.ID, b.ID = 9, 9
	if err := n.ps.toGrey(a); err != nil {
		t.Fatal(err)
	}
	if err := n.ps.toGrey(b); err == nil || n.ps.grey.Get(9) != a {
		t.Fatal("a peer that claims the identifier of another one replaces it")
	}
''', "two connections that introduce themselves with the same identifier", "a known peer is replaced by one that claims its identifier")

L_V = "p2p/levin.go"
nbug("w01-masked-flag", "W01", L_V, [("		IsResponse: (head.Flags & LevinPacketResponse) == LevinPacketResponse,", "		IsResponse: head.Flags >= LevinPacketRequest,")], ["testing", "net", "time"], '''
	a, b := net.Pipe()
	_ = a.SetDeadline(time.Now().Add(10 * time.Second))
	_ = b.SetDeadline(time.Now().Add(10 * time.Second))
	pa, pb := &LevinProtocol{a}, &LevinProtocol{b}
	go func() {
		_, _ = pb.read()
		_ = pb.Notify(1002, TimedSyncResponse{})
	}()
	var res TimedSyncResponse
	if err := pa.Invoke(1002, TimedSyncRequest{}, &res); err == nil {
		t.Fatal("a request of the peer was taken for the answer")
	}
''', "a peer that sends a request with the command we wait for instead of the answer", "requests are taken for answers")

nbug("w01-size-int32", "W01", L_V, [("	if head.BodySize > uint64(LevinMaxPacketSize) {", "	if int32(head.BodySize) > int32(LevinMaxPacketSize) {"), ("	payload := make([]byte, head.BodySize)\n", "	payload := make([]byte, uint32(head.BodySize))\n")], ["testing", "net", "time", "encoding/binary"], '''
	a, b := net.Pipe()
	_ = a.SetDeadline(time.Now().Add(10 * time.Second))
	_ = b.SetDeadline(time.Now().Add(10 * time.Second))
	go func() {
		var m [35]byte
		binary.LittleEndian.PutUint64(m[0:8], LevinSignature)
		binary.LittleEndian.PutUint64(m[8:16], 1<<32+2)
		m[17] = 1
		_, _ = b.Write(m[:])
	}()
	if c, err := (&LevinProtocol{a}).read(); err == nil {
		t.Fatal("a frame of four gigabytes was accepted with a payload of ", len(c.Payload))
	}
''', "a frame whose 64-bit size has bits set above the lower 32", "frames over the limit are accepted, cut off")

nbug("w01-short-write", "W01", L_V, [("	if _, err := p.write(command, reqBytes, false, LevinPacketRequest, 0); err != nil {", "	if n, err := p.write(command, reqBytes, false, LevinPacketRequest, 0); err != nil && n < LevinHeadSize {")], ["testing", "net", "time"], '''
	a, b := net.Pipe()
	_ = a.SetDeadline(time.Now().Add(10 * time.Second))
	go func() {
		var m [40]byte
		_, _ = b.Read(m[:])
		_ = b.Close()
	}()
	if err := (&LevinProtocol{a}).Notify(2006, TimedSyncResponse{}); err == nil {
		t.Fatal("a notification counts as sent although the connection broke in the middle")
	}
''', "a connection that breaks after the head of a notification", "an incomplete notification counts as sent")
