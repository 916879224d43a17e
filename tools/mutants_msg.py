CMD = "p2p/command.go"; NOT = "p2p/notification.go"; NDE = "p2p/node.go"; PEE = "p2p/peer.go"; HSK = "p2p/command_handshake.go"; RGO = "p2p/notification_response_get_objects.go"
mut("w03-swap-reg", "W03", (NOT, "	NotificationNewTransactionsID:    NotificationNewTransactions{},", "	NotificationNewTransactionsID:    NotificationTxPool{},"))
mut("w03-missing-reg", "W03", (NOT, "	NotificationTxPoolID:             NotificationTxPool{},\n", ""))
mut("w03-const-shift", "W03", (NOT, "NotificationBoolBase + 6  // 2006", "NotificationBoolBase + 5  // 2006"))
mut("w03-hop-width", "W03", (NOT, '	Hop                     uint32   `binary:"hop"`', '	Hop                     uint8    `binary:"hop"`'))
mut("w03-tag", "W03", (NOT, 'binary:"m_block_ids,binary"', 'binary:"block_ids,binary"'))
mut("w03-array-opt", "W03", (NOT, 'Blocks       []crypto.Hash `binary:"blocks,binary"`', 'Blocks       []crypto.Hash `binary:"blocks,array"`'))
mut("w03-omit", "W03", (NOT, 'Transactions []crypto.Hash `binary:"txs"`', 'Transactions []crypto.Hash `binary:"txs,omitempty"`'))
mut("w03-status-array", "W03", (CMD, '	PeerID uint64 `binary:"peer_id"`\n}\n\nvar', '	PeerID uint32 `binary:"peer_id"`\n}\n\nvar'))
mut("w03-peer-order", "W03", (CMD, "	ID       uint64\n	LastSeen uint64", "	LastSeen uint64\n	ID       uint64"))
mut("w03-addr-order", "W03", (PEE, "	IP   uint32\n	Port uint32", "	Port uint32\n	IP   uint32"))
mut("w03-parse-err", "W03", (NOT, "notification.Interface()); err != nil {", "notification.Interface()); err != nil && len(lc.Payload) == 0 {"))
mut("w03-parse-unknown", "W03", (NOT, '	return nil, errors.New(fmt.Sprintf("unknown notification ID: %d", lc.Command))', '	return NotificationTxPool{}, nil'), (NOT, '	"errors"\n	"fmt"\n', '	"errors"\n'))
mut("w03-parse-refuse", "W03", (CMD, "	if s, ok := mapCommandStructs[lc.Command]; ok {", "	if s, ok := mapCommandStructs[lc.Command]; ok && lc.IsNotify {"))
mut("w03-parse-other", "W03", (CMD, "mapCommandStructs[lc.Command]; ok", "mapCommandStructs[lc.Command&0xffff]; ok"))
mut("w03-send-id", "W03", (PEE, "p.protocol.Notify(NotificationRequestGetObjectsID, n)", "p.protocol.Notify(NotificationResponseGetObjectsID, n)"))
mut("w03-send-pointer", "W03", (PEE, "p.protocol.Notify(NotificationRequestGetObjectsID, n)", "p.protocol.Notify(NotificationRequestGetObjectsID, &n)"))
mut("w03-send-chain-ptr", "W03", (PEE, "p.protocol.Notify(NotificationRequestChainID, *n)", "p.protocol.Notify(NotificationRequestChainID, n)"))
mut("w03-ping-cmd", "W03", (PEE, "Invoke(CommandPing, req", "Invoke(CommandTimedSync, req"))
mut("w03-invoke-res", "W03", (PEE, "	var res HandshakeResponse\n	if err := p.protocol.Invoke(CommandHandshake, NewHandshakeRequest(n.Blockchain), &res)", "	var res HandshakeResponse\n	if err := p.protocol.Invoke(CommandHandshake, NewHandshakeRequest(n.Blockchain), res)"))
mut("w03-reply-other", "W03,P05", (NDE, "p.protocol.Reply(cmd.Command, *res, 1)", "p.protocol.Reply(CommandPing, *res, 1)"))
mut("w03-reply-cmd", "W03,P05", (NDE, "p.protocol.Reply(cmd.Command, rsp, 1)", "p.protocol.Reply(CommandTimedSync, rsp, 1)"))
mut("w03-reply-ptr", "W03", (NDE, "p.protocol.Reply(cmd.Command, *res, 1)", "p.protocol.Reply(cmd.Command, res, 1)"))
mut("w03-table-written", "W03", (NDE, "func (n *Node) defaults() {", "func (n *Node) defaults() {\n	mapCommandStructs[CommandPing] = PingRequest{}"))
