ND = "p2p/node.go"; PE = "p2p/peer.go"; HS = "p2p/command_handshake.go"; GO = "p2p/notification_response_get_objects.go"; PS = "p2p/peerstore.go"; CM = "p2p/command.go"; LV = "p2p/levin.go"
mut("p01-network-or", "P01", (HS, "if req.NodeData.NetworkID != n.Config.Network.NetworkID {", "if req.NodeData.NetworkID != n.Config.Network.NetworkID && !p.isIncoming {"))
mut("p01-id-after", "P01", (HS, '''	if p.ID != 0 {
		err''', '''	if p.ID == req.NodeData.PeerID {
		err'''))
mut("p01-reply-first", "P01", (ND, '''		if err := n.HandleHandshake(p, c.(HandshakeRequest)); err != nil {
			return err
		}
''', '''		if err := n.HandleHandshake(p, c.(HandshakeRequest)); err != nil && p.state == PeerStateShutdown && p.isIncoming {
			return err
		}
'''))
mut("p01-minversion", "P01", (PE, "res.NodeData.Version < n.Config.Network.P2PMinimumVersion", "res.NodeData.Version > n.Config.Network.P2PMinimumVersion"))
mut("p01-no-shutdown", "P01 P03", (HS, '''		err := ErrHandshakeProcessSyncData
		p.Shutdown()
''', '''		err := ErrHandshakeProcessSyncData
'''))
mut("p01-state", "P01", (PE, "if p.state != PeerStateBeforeHandshake {", "if p.state == PeerStateShutdown {"))
mut("p02-has-dropped", "P02", (GO, "if !p.requestedBlocks.Has(hash) {", "if !p.requestedBlocks.Has(hash) && i > 0 {"))
mut("p02-txcount-less", "P02", (GO, "len(block.TransactionsHashes) != len(rawBlock.Transactions)", "len(block.TransactionsHashes) > len(rawBlock.Transactions)"))
mut("p02-missing", "P02", (GO, "if len(p.requestedBlocks) > 0 {", "if len(p.requestedBlocks) > MaxBlockSynchronization {"))
mut("p02-remove", "P02", (GO, "		p.requestedBlocks.Remove(hash)\n", ""))
mut("p02-wrong-tx", "P02", (GO, "transactions[*hash] = rawBlock.Transactions", "transactions[*hash] = nt.Blocks[0].Transactions"))
mut("p02-add-err", "P02", (ND, '''			return err
			// TODO: Process proper error''', '''			continue
			// TODO: Process proper error'''))
mut("p02-height", "P02 P03", (GO, "if p.lastResponseHeight > nt.CurrentBlockchainHeight {", "if p.remoteHeight > nt.CurrentBlockchainHeight {"))
mut("p02-trailing", "P02", ("p2p/notification.go", "if rawBlockReader.Len() != 0 {", "if rawBlockReader.Len() > 1 {"))
mut("p03-empty-entry", "P03", (ND, '''			p.Shutdown()
			// TODO: Create new error instance
			return errors.New(fmt.Sprintf("[%s] hash %s missing''', '''			// TODO: Create new error instance
			return errors.New(fmt.Sprintf("[%s] hash %s missing'''))
mut("p03-genesis-first", "P03", (ND, "notification.Blocks[len(notification.Blocks)-1] {", "notification.Blocks[0] {"))
mut("p03-total-narrow", "P03", (ND, "lastHeight > uint64(p.remoteHeight) {", "uint32(lastHeight) > p.remoteHeight {"))
mut("p03-shutdown-reset", "P03", (ND, '''			p.Shutdown()
			return errors.New(
				fmt.Sprintf(
					"[%s] sent wrong''', '''			p.Shutdown()
			p.state = PeerStateIdle
			return errors.New(
				fmt.Sprintf(
					"[%s] sent wrong'''))
mut("p03-loop-continue", "P03", (ND, '''			n.logger.Infof("[%d] shutting down...", p.ID)
			return
''', '''			n.logger.Infof("[%d] shutting down...", p.ID)
'''))
mut("p04-close", "P04", (ND, "	defer p.protocol.Conn.Close()\n", ""))
mut("p04-watch-nothing", "P04", (ND, '''			_ = p.protocol.Conn.Close()
		case <-closed:''', '''			n.logger.Debug("closing")
		case <-closed:'''))
mut("p04-watch-leak", "P04", (ND, "	defer close(closed)\n", ""))
mut("p04-add-in-goroutine", "P04", (ND, '''			n.wg.Add(1)
			go n.handleIncomingConnection(conn)''', '''			go n.handleIncomingConnection(conn)'''), (ND, "	defer n.wg.Done()\n\n	// TODO: Enabling", "	n.wg.Add(1)\n	defer n.wg.Done()\n\n	// TODO: Enabling"))
mut("p04-double-done", "P04", (ND, '''	n.logger.Debugf("[%16x] sync closed", peer.ID)
}

func (n *Node) connectionHandler''', '''	n.logger.Debugf("[%16x] sync closed", peer.ID)
	if peer.ID == 0 {
		n.wg.Done()
	}
}

func (n *Node) connectionHandler'''))
mut("p04-accept-error", "P04", (ND, '''				n.logger.Errorf("failed to accept connection: %s", err)
				continue
''', '''				n.logger.Errorf("failed to accept connection: %s", err)
'''))
mut("p04-no-deadline", "P04", (ND, "			_ = n.listener.SetDeadline(time.Now().Add(time.Second * 5))\n\n", ""))
mut("p04-listener-open", "P04", (ND, '''			if err := n.listener.Close(); err != nil {
				n.logger.Errorf("failed to close listener: %s", err)
			}
''', ""))
mut("p05-height", "P05", (CM, "height := topBlock.Index() + 1", "height := topBlock.Index()"))
mut("p05-network", "P05", (CM, "NetworkID: n.NetworkID,", "NetworkID: config.MainNet().NetworkID,"))
mut("p05-version", "P05", (CM, "n.P2PCurrentVersion,", "n.P2PMinimumVersion,"))
mut("p05-hash", "P05", (CM, "return &SyncData{height, *hash}", "_ = hash\n\treturn &SyncData{height, topBlock.PreviousBlockHash}"))
mut("p05-cmd", "P05", (ND, "p.protocol.Reply(cmd.Command, *res, 1)", "p.protocol.Reply(CommandHandshake, *res, 1)"))
mut("p06-zero", "P06", (PS, "if p.ID == 0 {", "if p.ID == 0 && p.isIncoming {"))
mut("p06-remove", "P06", (PS, "	_ = ps.white.Remove(p)\n", ""))
mut("p06-replace", "P06", (PS, '''	if _, ok := pl.peers[p.ID]; ok {
		return errors.New(fmt''', '''	if q, ok := pl.peers[p.ID]; ok && q.isIncoming {
		return errors.New(fmt'''))
mut("p06-list-grey", "P06", (PS, '''	for _, p := range ps.grey.peers {
''', '''	for _, p := range ps.grey.peers {
		if p.isIncoming {
			continue
		}
'''))
