CMD = "p2p/command.go"; NOT = "p2p/notification.go"; NDE = "p2p/node.go"; PEE = "p2p/peer.go"
ref("ms-parse-helper", (CMD, "	if s, ok := mapCommandStructs[lc.Command]; ok {\n		command := reflect.New(reflect.TypeOf(s))\n		if err := binary.Unmarshal(lc.Payload, command.Interface()); err != nil {\n			return nil, err\n		}\n\n		return command.Elem().Interface(), nil\n	}\n\n	return nil, errors.New(fmt.Sprintf(\"unknown command: %d\", lc.Command))\n}",
 "	s, ok := mapCommandStructs[lc.Command]\n	if !ok {\n		return nil, fmt.Errorf(\"unknown command: %d\", lc.Command)\n	}\n\n	return unmarshalAs(lc.Payload, s)\n}\n\n// unmarshalAs decodes the payload into a new value of the type of s\nfunc unmarshalAs(payload []byte, s interface{}) (interface{}, error) {\n	v := reflect.New(reflect.TypeOf(s))\n	if err := binary.Unmarshal(payload, v.Interface()); err != nil {\n		return nil, err\n	}\n\n	return v.Elem().Interface(), nil\n}"), (CMD, '	"errors"\n', ''))
ref("ms-table-types", (CMD, "map[uint32]interface{}{\n	CommandHandshake: HandshakeRequest{},\n	CommandTimedSync: TimedSyncRequest{},\n}", "map[uint32]reflect.Type{\n	CommandHandshake: reflect.TypeOf(HandshakeRequest{}),\n	CommandTimedSync: reflect.TypeOf(TimedSyncRequest{}),\n}"), (CMD, "reflect.New(reflect.TypeOf(s))", "reflect.New(s)"))
ref("ms-parse-switch", (CMD, "	if s, ok := mapCommandStructs[lc.Command]; ok {\n		command := reflect.New(reflect.TypeOf(s))\n		if err := binary.Unmarshal(lc.Payload, command.Interface()); err != nil {\n			return nil, err\n		}\n\n		return command.Elem().Interface(), nil\n	}\n",
 "	switch lc.Command {\n	case CommandHandshake:\n		var req HandshakeRequest\n		if err := binary.Unmarshal(lc.Payload, &req); err != nil {\n			return nil, err\n		}\n\n		return req, nil\n	case CommandTimedSync:\n		var req TimedSyncRequest\n		if err := binary.Unmarshal(lc.Payload, &req); err != nil {\n			return nil, err\n		}\n\n		return req, nil\n	}\n"), (CMD, "var mapCommandStructs = map[uint32]interface{}{\n	CommandHandshake: HandshakeRequest{},\n	CommandTimedSync: TimedSyncRequest{},\n}\n\n", ""), (CMD, '	"math/rand"\n	"reflect"\n', '	"math/rand"\n'))
ref("ms-notify-helper", (PEE, "p.protocol.Notify(NotificationRequestGetObjectsID, n)", "p.notify(NotificationRequestGetObjectsID, n)"), (PEE, "p.protocol.Notify(NotificationRequestChainID, *n)", "p.notify(NotificationRequestChainID, *n)"), (PEE, "func (p *Peer) ping() (", "func (p *Peer) notify(id uint32, v interface{}) error {\n	return p.protocol.Notify(id, v)\n}\n\nfunc (p *Peer) ping() ("))
ref("ms-ping-inline", (PEE, "	req := PingRequest{}\n	res := PingResponse{}\n\n	if err := p.protocol.Invoke(CommandPing, req, &res); err != nil {\n		return nil, err\n	}\n\n	return &res, nil", "	res := new(PingResponse)\n	if err := p.protocol.Invoke(CommandPing, PingRequest{}, res); err != nil {\n		return nil, err\n	}\n\n	return res, nil"))
ref("ms-field-order", (NOT, "	CurrentBlockchainHeight uint32 `binary:\"current_blockchain_height\"`\n	Hop                     uint32 `binary:\"hop\"`\n	Block                   []byte `binary:\"block\"`", "	Block                   []byte `binary:\"block\"`\n	CurrentBlockchainHeight uint32 `binary:\"current_blockchain_height\"`\n	Hop                     uint32 `binary:\"hop\"`"))
ref("ms-embed-comment", (CMD, "	PeerID    uint64    `binary:\"peer_id\"`\n	LocalTime", "	// PeerID identifies the node\n	PeerID    uint64    `binary:\"peer_id\"`\n\n	LocalTime"))
