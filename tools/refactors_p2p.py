ND = "p2p/node.go"; PE = "p2p/peer.go"; HS = "p2p/command_handshake.go"; GO = "p2p/notification_response_get_objects.go"; PS = "p2p/peerstore.go"; CM = "p2p/command.go"; LV = "p2p/levin.go"; NT = "p2p/notification.go"
ref("p2p-check-handshake-helper", (HS, '''	if req.NodeData.NetworkID != n.Config.Network.NetworkID {
		err := ErrHandshakeWrongNetwork
		p.logger.Error(err, zap.String("peerID", req.NodeData.NetworkID.String()))
		p.Shutdown()
		return err
	}

	if !p.isIncoming {
		err := ErrHandshakeNotIncoming
		p.logger.Error(err)
		p.Shutdown()
		return err
	}

	if p.ID != 0 {
		err := ErrHandshakeHasID
		p.logger.Error(err, zap.String("peerID", strconv.FormatUint(req.NodeData.PeerID, 10)))
		p.Shutdown()
		return err
	}

	p.SetID(''', '''	if err := n.checkHandshake(p, &req); err != nil {
		p.logger.Error(err, zap.String("peerID", strconv.FormatUint(req.NodeData.PeerID, 10)))
		p.Shutdown()
		return err
	}

	p.SetID('''), (HS, '''// HandleHandshake checking''', '''func (n *Node) checkHandshake(p *Peer, req *HandshakeRequest) error {
	switch {
	case p.ID != 0:
		return ErrHandshakeHasID
	case !p.isIncoming:
		return ErrHandshakeNotIncoming
	case n.Config.Network.NetworkID != req.NodeData.NetworkID:
		return ErrHandshakeWrongNetwork
	}

	return nil
}

// HandleHandshake checking'''))
ref("p2p-delivery-helper", (GO, '''	orderedBlocks := make([]*cryptonote.Block, len(nt.Blocks))
	transactions := map[crypto.Hash][][]byte{}
	for i, rawBlock := range nt.Blocks {
		block, err := rawBlock.ToBlock()
		if err != nil {
			p.Shutdown()
			return errors.New(
				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
			)
		}

		hash := block.Hash()
		if !p.requestedBlocks.Has(hash) {
			p.Shutdown()
			return errors.New(fmt.Sprintf("[%s] got not requested block #%d '%s'", p, i, hash.String()))
		}

		if len(block.TransactionsHashes) != len(rawBlock.Transactions) {
			p.Shutdown()
			return errors.New(fmt.Sprintf(
				"[%s] got wrong block transactions size. block: %s block tx: %d raw tx: %d",
				p, hash.String(), len(block.TransactionsHashes), len(rawBlock.Transactions),
			))
		}

		p.requestedBlocks.Remove(hash)
		transactions[*hash] = rawBlock.Transactions
		orderedBlocks[i] = block
	}
''', '''	orderedBlocks := make([]*cryptonote.Block, 0, len(nt.Blocks))
	transactions := map[crypto.Hash][][]byte{}
	for i := range nt.Blocks {
		rawBlock := &nt.Blocks[i]

		block, err := p.acceptRequested(rawBlock)
		if err != nil {
			p.Shutdown()
			return fmt.Errorf("[%s] block #%d: %w", p, i, err)
		}

		transactions[*block.Hash()] = rawBlock.Transactions
		orderedBlocks = append(orderedBlocks, block)
	}
'''), (GO, "func (n *Node) HandleResponseGetObjects(", '''// acceptRequested decodes a raw block and crosses it off the list of requested blocks
func (p *Peer) acceptRequested(rawBlock *RawBlock) (*cryptonote.Block, error) {
	block, err := rawBlock.ToBlock()
	if err != nil {
		return nil, fmt.Errorf("failed to convert raw block: %w", err)
	}

	if len(rawBlock.Transactions) != len(block.TransactionsHashes) {
		return nil, errors.New("wrong transactions number")
	}

	if !p.requestedBlocks.Has(block.Hash()) {
		return nil, errors.New("not requested block")
	}

	p.requestedBlocks.Remove(block.Hash())

	return block, nil
}

func (n *Node) HandleResponseGetObjects('''))
ref("p2p-delivery-index-loop", (GO, '''	for i, rawBlock := range nt.Blocks {
		block''', '''	for i := 0; i < len(nt.Blocks); i++ {
		rawBlock := nt.Blocks[i]
		block'''), (GO, "if len(p.requestedBlocks) > 0 {", "if len(p.requestedBlocks) != 0 {"))
ref("p2p-typed-switch", (ND, '''	switch nt.(type) {
	case NotificationTxPool: // 2008
		notification := nt.(NotificationTxPool)

''', '''	switch notification := nt.(type) {
	case NotificationTxPool: // 2008
'''), (ND, '''	case NotificationRequestChain:
		notification := nt.(NotificationRequestChain)
''', '''	case NotificationRequestChain:
'''), (ND, '''	case NotificationResponseChainEntry: // 2007
		notification := nt.(NotificationResponseChainEntry)
''', '''	case NotificationResponseChainEntry: // 2007
'''), (ND, '''		notification := nt.(NotificationResponseGetObjects)

''', ""))
ref("p2p-chain-entry-handler", (ND, '''		notification := nt.(NotificationResponseChainEntry)

		p.logger.Debugf(''', '''		return n.handleChainEntry(p, nt.(NotificationResponseChainEntry))
	case NotificationResponseGetObjects: // 2004
		notification := nt.(NotificationResponseGetObjects)

		return n.HandleResponseGetObjects(p, notification)
	default:
		n.logger.Errorf("can't handle notification type: %s", reflect.TypeOf(nt))
	}

	return nil
}

func (n *Node) handleChainEntry(p *Peer, notification NotificationResponseChainEntry) error {
		p.logger.Debugf('''), (ND, '''		return p.requestMissingBlocks(n, false)
	case NotificationResponseGetObjects: // 2004
		notification := nt.(NotificationResponseGetObjects)

		return n.HandleResponseGetObjects(p, notification)
	default:
		n.logger.Errorf("can't handle notification type: %s", reflect.TypeOf(nt))
	}

	return nil
}
''', '''		return p.requestMissingBlocks(n, false)
}
'''), (ND, '''		lastHeight := uint64(notification.StartHeight) + uint64(len(notification.BlocksHashes)-1)
''', '''		lastHeight := uint64(notification.StartHeight) + uint64(len(notification.BlocksHashes)) - 1
'''))
ref("p2p-fail-helper", (ND, '''			p.Shutdown()
			return errors.New(fmt.Sprintf("[%s] request chain with 0 blocks", p))
''', '''			return p.violation("request chain with 0 blocks")
'''), (ND, '''			p.Shutdown()
			return errors.New(fmt.Sprintf("[%s] request chain genesis block not match", p))
''', '''			return p.violation("request chain genesis block not match")
'''), (PE, '''func (p *Peer) String() string {''', '''// violation shuts the peer down and returns the error
func (p *Peer) violation(reason string) error {
	defer p.Shutdown()

	return fmt.Errorf("[%s] %s", p, reason)
}

func (p *Peer) String() string {'''))
ref("p2p-genesis-compare-var", (ND, '''		if *genesisBlock.Hash() != notification.Blocks[len(notification.Blocks)-1] {
''', '''		last := len(notification.Blocks) - 1
		if remoteGenesis := notification.Blocks[last]; remoteGenesis != *genesisBlock.Hash() {
'''))
ref("p2p-loop-if", (ND, '''		switch p.state {
		// Our node must be synchronized with the peer
		case PeerStateSyncRequired:
			p.state = PeerStateSynchronizing

			if err := n.NotifyRequestChain(p); err != nil {
				n.logger.Errorf("failed to write request chain: %s", err)
			}

		// Peer shutdown.
		// Stop listening for commands.
		case PeerStateShutdown:
			n.logger.Infof("[%d] shutting down...", p.ID)
			return
		}
''', '''		if p.state == PeerStateShutdown {
			n.logger.Infof("[%d] shutting down...", p.ID)
			return
		}

		// Our node must be synchronized with the peer
		if p.state == PeerStateSyncRequired {
			p.state = PeerStateSynchronizing

			if err := n.NotifyRequestChain(p); err != nil {
				n.logger.Errorf("failed to write request chain: %s", err)
			}
		}
'''))
ref("p2p-defer-combined", (ND, '''	closed := make(chan struct{})
	defer close(closed)
	defer p.protocol.Conn.Close()
''', '''	closed := make(chan struct{})
	defer func() {
		_ = p.protocol.Conn.Close()
		close(closed)
	}()
'''))
ref("p2p-watcher-method", (ND, '''	go func() {
		select {
		case <-n.context.Done():
			_ = p.protocol.Conn.Close()
		case <-closed:
		}
	}()
''', '''	go n.closeOnStop(p, closed)
'''), (ND, '''func (n *Node) connectionHandler(p *Peer) {''', '''// closeOnStop closes the connection of the peer when the node is stopped
func (n *Node) closeOnStop(p *Peer, closed chan struct{}) {
	select {
	case <-closed:
		return
	case <-n.context.Done():
	}

	_ = p.protocol.Conn.Close()
}

func (n *Node) connectionHandler(p *Peer) {'''))
ref("p2p-serve-step", (ND, '''		// There is special command type as "notification" we handle them with a separate method.
		if cmd.IsNotify {
			if err := n.handleNotification(p, cmd); err != nil {
				n.logger.Errorf("failed to handle notification %d: %s", cmd.Command, err)
			}

			continue
		}

		// Call method for handling the notification
		if err := n.handleCommand(p, cmd); err != nil {
			n.logger.Errorf("failed handle command (%d): %s", cmd.Command, err)
		}
''', '''		n.dispatch(p, cmd)
'''), (ND, '''// handleNotification
//''', '''// dispatch hands the command over to its handler
func (n *Node) dispatch(p *Peer, cmd *LevinCommand) {
	if !cmd.IsNotify {
		if err := n.handleCommand(p, cmd); err != nil {
			n.logger.Errorf("failed handle command (%d): %s", cmd.Command, err)
		}
		return
	}

	if err := n.handleNotification(p, cmd); err != nil {
		n.logger.Errorf("failed to handle notification %d: %s", cmd.Command, err)
	}
}

// handleNotification
//'''))
ref("p2p-listener-defer", (ND, '''func (n *Node) runListener() {
	for {
		select {
		case <-n.context.Done():
			if err := n.listener.Close(); err != nil {
				n.logger.Errorf("failed to close listener: %s", err)
			}

			n.wg.Done()
			return
''', '''func (n *Node) runListener() {
	defer n.wg.Done()

	for {
		select {
		case <-n.context.Done():
			if err := n.listener.Close(); err != nil {
				n.logger.Errorf("failed to close listener: %s", err)
			}

			return
'''))
ref("p2p-accept-helper", (ND, '''			_ = n.listener.SetDeadline(time.Now().Add(time.Second * 5))

			conn, err := n.listener.AcceptTCP()
			if err != nil {
				if opErr, ok := err.(*net.OpError); ok && opErr.Timeout() {
					time.Sleep(time.Second)
					continue
				}
				n.logger.Errorf("failed to accept connection: %s", err)
				continue
			}

			n.wg.Add(1)
			go n.handleIncomingConnection(conn)
''', '''			n.accept()
'''), (ND, '''func (n *Node) handleIncomingConnection(''', '''// accept waits for the next connection
func (n *Node) accept() {
	_ = n.listener.SetDeadline(time.Now().Add(time.Second * 5))

	conn, err := n.listener.AcceptTCP()
	if err == nil {
		n.wg.Add(1)
		go n.handleIncomingConnection(conn)
		return
	}

	if opErr, ok := err.(*net.OpError); ok && opErr.Timeout() {
		time.Sleep(time.Second)
		return
	}

	n.logger.Errorf("failed to accept connection: %s", err)
}

func (n *Node) handleIncomingConnection('''))
ref("p2p-processed-inline", (ND, '''		if _, ok := transactions[*block.Hash()]; !ok {
			return errors.New(fmt.Sprintf("transactions for block at index %d not found", i))
		}

		if err := n.Blockchain.AddBlock(block, transactions[*block.Hash()]); err != nil {''', '''		rawTransactions, ok := transactions[*block.Hash()]
		if !ok {
			return fmt.Errorf("transactions for block at index %d not found", i)
		}

		if err := n.Blockchain.AddBlock(block, rawTransactions); err != nil {'''))
ref("p2p-peerstore-move", (PS, '''	_ = ps.grey.Remove(p)

	if err := ps.white.Add(p); err != nil {
		return err
	}

	return nil
''', '''	return move(ps.grey, ps.white, p)
'''), (PS, '''	_ = ps.white.Remove(p)

	if err := ps.grey.Add(p); err != nil {
		return err
	}

	return nil
''', '''	return move(ps.white, ps.grey, p)
'''), (PS, "func (pl *peerList) Add(", '''func move(from, to *peerList, p *Peer) error {
	_ = from.Remove(p)

	return to.Add(p)
}

func (pl *peerList) Add('''))
ref("p2p-entries-helper", (PS, '''	var peers []PeerEntry

	for _, p := range ps.white.peers {
		peers = append(peers, p.PeerEntry())
	}

	for _, p := range ps.grey.peers {
		peers = append(peers, p.PeerEntry())
	}

	return peers
''', '''	peers := make([]PeerEntry, 0, len(ps.white.peers)+len(ps.grey.peers))

	for _, list := range []*peerList{ps.white, ps.grey} {
		peers = list.appendEntries(peers)
	}

	return peers
'''), (PS, "func (pl *peerList) Add(", '''func (pl *peerList) appendEntries(peers []PeerEntry) []PeerEntry {
	for _, p := range pl.peers {
		peers = append(peers, p.PeerEntry())
	}

	return peers
}

func (pl *peerList) Add('''))
ref("p2p-syncdata-literal", (CM, '''	topBlock := bc.TopBlock()

	hash := topBlock.Hash()
	height := topBlock.Index() + 1

	return &SyncData{height, *hash}
''', '''	top := bc.TopBlock()

	data := new(SyncData)
	data.CurrentHeight = 1 + top.Index()
	data.TopBlockHash = *top.Hash()

	return data
'''))
ref("p2p-handshake-switch", (ND, '''	switch c.(type) {
	case HandshakeRequest:
		if err := n.HandleHandshake(p, c.(HandshakeRequest)); err != nil {
			return err
		}

		rsp := NewHandshakeResponse(n.Blockchain, n.ps.toPeerEntries())
		if err := p.protocol.Reply(cmd.Command, rsp, 1); err != nil {
			return err
		}
	case''', '''	switch request := c.(type) {
	case HandshakeRequest:
		err := n.HandleHandshake(p, request)
		if err == nil {
			err = p.protocol.Reply(CommandHandshake, NewHandshakeResponse(n.Blockchain, n.ps.toPeerEntries()), 1)
		}

		if err != nil {
			return err
		}
	case'''))
ref("p2p-outgoing-check", (PE, '''	if n.Config.Network.NetworkID != res.NodeData.NetworkID {
		return nil, errors.New("wrong network id received")
	}

	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
		return nil, errors.New("node data version not match minimal")
	}
''', '''	if err := checkNodeData(&res.NodeData, n.Config.Network); err != nil {
		return nil, err
	}
'''), (PE, "func (p *Peer) ping()", '''func checkNodeData(data *BasicNodeData, network *config.Network) error {
	if network.P2PMinimumVersion > data.Version {
		return errors.New("node data version not match minimal")
	}

	if data.NetworkID == network.NetworkID {
		return nil
	}

	return errors.New("wrong network id received")
}

func (p *Peer) ping()'''), (PE, '''	"github.com/r3volut1oner/go-karbo/crypto"
''', '''	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
'''))
ref("p2p-known-loop", (ND, '''			if allBlockKnown && hasBlock {
				continue
			}

			allBlockKnown = false
			p.neededBlocks = append(p.neededBlocks, bh)
''', '''			allBlockKnown = allBlockKnown && hasBlock
			if !allBlockKnown {
				p.neededBlocks = append(p.neededBlocks, bh)
			}
'''))
ref("p2p-toblock-reader", (NT, '''	if rawBlockReader.Len() != 0 {
		return nil, errors.New("unexpected bytes after the block")
	}

	return block, nil
''', '''	if rawBlockReader.Len() == 0 {
		return block, nil
	}

	return nil, errors.New("unexpected bytes after the block")
'''))
