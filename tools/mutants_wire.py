LV = "p2p/levin.go"
mut("w01-ret-flag", "W01", (LV, "IsNotify:   !head.HaveToReturnData,", "IsNotify:   !head.HaveToReturnData && head.Flags&LevinPacketResponse == 0,"))
mut("w01-flags-eq", "W01", (LV, "(head.Flags & LevinPacketResponse) == LevinPacketResponse", "head.Flags == LevinPacketResponse"))
mut("w01-size32", "W01", (LV, "if head.BodySize > uint64(LevinMaxPacketSize) {", "if uint32(head.BodySize) > LevinMaxPacketSize {"))
mut("w01-size-after", "W01", (LV, '''	if head.BodySize > uint64(LevinMaxPacketSize) {
		return nil, errors.New("levin packet size is too big")
	}

	payload := make([]byte, head.BodySize)
''', '''	payload := make([]byte, head.BodySize)

	if head.BodySize > uint64(LevinMaxPacketSize) {
		return nil, errors.New("levin packet size is too big")
	}
'''))
mut("w01-size-strict", "W01", (LV, "head.BodySize > uint64(LevinMaxPacketSize)", "head.BodySize >= uint64(LevinMaxPacketSize)"))
mut("w01-read-short", "W01", (LV, "if _, err := io.ReadFull(p.Conn, payload); err != nil {", "if _, err := p.Conn.Read(payload); err != nil {"))
mut("w01-cmd-place", "W01", (LV, "head.Command = binary.LittleEndian.Uint32(b[17:21])", "head.Command = binary.LittleEndian.Uint32(b[16:20]) >> 8"))
mut("w01-rc-cmd-swapped", "W01", (LV, '''	binary.LittleEndian.PutUint32(result[17:21], head.Command)
	binary.LittleEndian.PutUint32(result[21:25], uint32(head.ReturnCode))''', '''	binary.LittleEndian.PutUint32(result[21:25], head.Command)
	binary.LittleEndian.PutUint32(result[17:21], uint32(head.ReturnCode))'''))
mut("w01-be", "W01", (LV, "binary.LittleEndian.PutUint32(result[25:29], head.Flags)", "binary.BigEndian.PutUint32(result[25:29], head.Flags)"))
mut("w01-body-33", "W01", (LV, "BodySize:         uint64(pLen),", "BodySize:         uint64(LevinHeadSize + pLen),"))
mut("w01-reply-flags", "W01", (LV, "p.write(command, b, false, LevinPacketResponse, returnCode)", "p.write(command, b, true, LevinPacketResponse, returnCode)"))
mut("w01-notify-answer", "W01", (LV, "p.write(command, reqBytes, false, LevinPacketRequest, 0)", "p.write(command, reqBytes, command < 2000, LevinPacketRequest, 0)"))
mut("w01-write-err", "W01", (LV, '''	if _, err := p.write(command, b, false, LevinPacketResponse, returnCode); err != nil {
		return err
	}
''', '''	_, _ = p.write(command, b, false, LevinPacketResponse, returnCode)
'''))
mut("w01-command-check", "W01", (LV, "if command != commandRsp.Command {", "if command != commandRsp.Command && commandRsp.IsNotify {"))
mut("w01-response-check", "W01", (LV, "if !commandRsp.IsResponse {", "if !commandRsp.IsResponse && len(commandRsp.Payload) == 0 {"))
mut("w01-sig32", "W01", (LV, "if head.Signature != LevinSignature {", "if uint32(head.Signature) != uint32(LevinSignature&0xffffffff) {"))
mut("w01-payload-cut", "W01", (LV, "payload := make([]byte, head.BodySize)", "payload := make([]byte, head.BodySize&0x7ffffff)"))
mut("w01-unmarshal-ignored", "W01", (LV, '''	if err := p2pbinary.Unmarshal(commandRsp.Payload, res); err != nil {
		return err
	}
''', '''	if err := p2pbinary.Unmarshal(commandRsp.Payload, res); err != nil && len(commandRsp.Payload) > 9 {
		return err
	}
'''))
mut("w01-version", "W01", (LV, "ProtocolVersion:  LevinProtocolVersion1,", "ProtocolVersion:  flags,"))
