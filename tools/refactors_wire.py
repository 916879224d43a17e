LV = "p2p/levin.go"
ref("w-encode-append", (LV, '''	message := make([]byte, LevinHeadSize+pLen)

	headBytes := head.encode()
	copy(message[0:33], headBytes[:])
	copy(message[33:], payload)

	return p.Conn.Write(message)''', '''	headBytes := head.encode()
	message := append(headBytes[:], payload...)

	return p.Conn.Write(message)'''))
ref("w-encode-buffer", (LV, '''	message := make([]byte, LevinHeadSize+pLen)

	headBytes := head.encode()
	copy(message[0:33], headBytes[:])
	copy(message[33:], payload)

	return p.Conn.Write(message)''', '''	var message bytes.Buffer

	headBytes := head.encode()
	message.Write(headBytes[:])
	message.Write(payload)

	return p.Conn.Write(message.Bytes())'''), (LV, '	"encoding/binary"\n', '	"bytes"\n	"encoding/binary"\n'))
ref("w-encode-fields", (LV, '''	binary.LittleEndian.PutUint64(result[0:8], head.Signature)
	binary.LittleEndian.PutUint64(result[8:16], head.BodySize)

	if head.HaveToReturnData {
		result[16] = 1
	}
''', '''	putSizes(result[:16], head)

	switch {
	case head.HaveToReturnData:
		result[16] = 1
	default:
		result[16] = 0
	}
'''), (LV, "func (head *bucketHead) decode(", '''func putSizes(b []byte, head *bucketHead) {
	binary.LittleEndian.PutUint64(b[:8], head.Signature)
	binary.LittleEndian.PutUint64(b[8:], head.BodySize)
}

func (head *bucketHead) decode('''))
ref("w-decode-const", (LV, '''	head.Signature = binary.LittleEndian.Uint64(b[0:8])
	head.BodySize = binary.LittleEndian.Uint64(b[8:16])
	head.HaveToReturnData = b[16] != 0
''', '''	s := b[:]
	head.Signature = binary.LittleEndian.Uint64(s)
	head.BodySize = binary.LittleEndian.Uint64(s[8:])
	if s[16] == 0 {
		head.HaveToReturnData = false
	} else {
		head.HaveToReturnData = true
	}
'''))
ref("w-decode-pointer", (LV, "	head.decode(headBytes)\n", "	head.decode(&headBytes)\n"), (LV, "func (head *bucketHead) decode(b [33]byte) {", "func (head *bucketHead) decode(b *[LevinHeadSize]byte) {"))
ref("w-flags-ne", (LV, "(head.Flags & LevinPacketResponse) == LevinPacketResponse", "head.Flags&LevinPacketResponse != 0"))
ref("w-read-order", (LV, '''	if head.Signature != LevinSignature {
		return nil, errors.New("levin signature mismatch")
	}

	if head.BodySize > uint64(LevinMaxPacketSize) {
		return nil, errors.New("levin packet size is too big")
	}
''', '''	if err := head.check(); err != nil {
		return nil, err
	}
'''), (LV, "func (head *bucketHead) encode(", '''func (head *bucketHead) check() error {
	switch {
	case head.Signature != LevinSignature:
		return errors.New("levin signature mismatch")
	case !(head.BodySize <= uint64(LevinMaxPacketSize)):
		return errors.New("levin packet size is too big")
	}

	return nil
}

func (head *bucketHead) encode('''))
ref("w-read-command-var", (LV, '''	return &LevinCommand{
		Command:    head.Command,
		Payload:    payload,
		IsNotify:   !head.HaveToReturnData,
		IsResponse: (head.Flags & LevinPacketResponse) == LevinPacketResponse,
	}, nil''', '''	cmd := new(LevinCommand)
	cmd.Command = head.Command
	cmd.Payload = payload
	if !head.HaveToReturnData {
		cmd.IsNotify = true
	}
	cmd.IsResponse = head.Flags&LevinPacketResponse == LevinPacketResponse

	return cmd, nil'''))
ref("w-notify-return", (LV, '''	if _, err := p.write(command, reqBytes, false, LevinPacketRequest, 0); err != nil {
		return err
	}

	return nil''', '''	_, err = p.write(command, reqBytes, false, LevinPacketRequest, 0)

	return err'''))
ref("w-invoke-switch", (LV, '''	if command != commandRsp.Command {
		return errors.New(fmt.Sprintf("wrong command response code: %v", commandRsp.Command))
	}

	if !commandRsp.IsResponse {
		return errors.New("not response returned")
	}

	if err := p2pbinary.Unmarshal(commandRsp.Payload, res); err != nil {
		return err
	}

	return nil''', '''	switch {
	case !commandRsp.IsResponse:
		return errors.New("not response returned")
	case commandRsp.Command != command:
		return fmt.Errorf("wrong command response code: %v", commandRsp.Command)
	}

	return p2pbinary.Unmarshal(commandRsp.Payload, res)'''))
ref("w-write-check-short", (LV, '''	return p.Conn.Write(message)
''', '''	n, err = p.Conn.Write(message)
	if err != nil {
		return n, err
	}

	return n, nil
'''))
ref("w-head-shift", (LV, '''	binary.LittleEndian.PutUint32(result[25:29], head.Flags)
''', '''	result[25] = byte(head.Flags)
	result[26] = byte(head.Flags >> 8)
	result[27] = byte(head.Flags >> 16)
	result[28] = byte(head.Flags >> 24)
'''))
ref("w-binary-write", (LV, '''	binary.LittleEndian.PutUint64(result[0:8], head.Signature)
	binary.LittleEndian.PutUint64(result[8:16], head.BodySize)

	if head.HaveToReturnData {
		result[16] = 1
	}

	binary.LittleEndian.PutUint32(result[17:21], head.Command)
	binary.LittleEndian.PutUint32(result[21:25], uint32(head.ReturnCode))
	binary.LittleEndian.PutUint32(result[25:29], head.Flags)
	binary.LittleEndian.PutUint32(result[29:33], head.ProtocolVersion)
''', '''	var b bytes.Buffer

	_ = binary.Write(&b, binary.LittleEndian, head.Signature)
	_ = binary.Write(&b, binary.LittleEndian, head.BodySize)
	_ = binary.Write(&b, binary.LittleEndian, head.HaveToReturnData)
	_ = binary.Write(&b, binary.LittleEndian, head.Command)
	_ = binary.Write(&b, binary.LittleEndian, head.ReturnCode)
	_ = binary.Write(&b, binary.LittleEndian, head.Flags)
	_ = binary.Write(&b, binary.LittleEndian, head.ProtocolVersion)
	copy(result[:], b.Bytes())
'''), (LV, '	"encoding/binary"\n', '	"bytes"\n	"encoding/binary"\n'))
