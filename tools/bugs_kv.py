KE, KD_ = "encoding/binary/encode.go", "encoding/binary/decode.go"
def TV(body, imports=""): return 'package binary\n\nimport (\n	"testing"\n' + imports + ')\n\nfunc TestVerifDemo(t *testing.T) {\n' + body + "}\n"
def kvbug(id, prop, file, edits, body, needs, breaks, imports=""): bug(id, prop, file, edits, TV(body, imports), needs, breaks, pkg="encoding/binary", harness="none")

kvbug("w02-name-length-wraps", "W02", KE, [("	if nameLen > math.MaxUint8 {", "	if nameLen > math.MaxUint16 {")], '''
	v := struct {
		A uint8 `binary:"''' + "n" * 300 + '''"`
	}{7}
	if b, err := Marshal(v); err == nil {
		t.Fatalf("a name of 300 bytes is written: %x", b[:20])
	}
''', "a field whose name is longer than 255 bytes", "the length of the name is cut to a byte: the message cannot be read back")
kvbug("w02-text-characters", "W02", KE, [("		if err := e.writeVarInt(uint64(val.Len())); err != nil {\n			return err\n		}\n\n		if _, err := e.w.Write([]byte(val.Interface().(string)))", "		if err := e.writeVarInt(uint64(len([]rune(val.String())))); err != nil {\n			return err\n		}\n\n		if _, err := e.w.Write([]byte(val.Interface().(string)))")], '''
	v := struct {
		S string `binary:"s"`
	}{"h\\u00e9llo"}
	b, err := Marshal(v)
	if err != nil {
		t.Fatal(err)
	}
	w := v
	w.S = ""
	if err := Unmarshal(b, &w); err != nil || w != v {
		t.Fatal(err, w)
	}
''', "text with characters outside ASCII", "the length written is the number of characters: the rest of the text is read as the next field")
kvbug("w02-number-boundary", "W02", KE, [("	} else if i <= 1073741823 {", "	} else if i <= 1<<30 {")], '''
	for _, n := range []uint64{63, 64, 16383, 16384, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<62 - 1} {
		var buf bytes.Buffer
		if err := NewEncoder(&buf).writeVarInt(n); err != nil {
			t.Fatal(err)
		}
		if m, err := NewDecoder(&buf).readVarInt(); err != nil || m != n {
			t.Fatal(n, m, err)
		}
	}
''', "exactly the number 2^30", "the number is written as zero", '	"bytes"\n')
kvbug("w04-items-wrap", "W04", KD_, [("			for i := uint64(0); i < size; i++ {\n				item", "			for i := uint32(0); i < uint32(size); i++ {\n				item")], '''
	// 2^32 + 1 items announced, one there
	body := []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 1, 1 << 2, 1, 'a', 0x88, 0x07, 0, 0, 0, 4, 0, 0, 0, 42}
	v := struct {
		A []byte `binary:"a,array"`
	}{}
	if err := Unmarshal(body, &v); err == nil {
		t.Fatalf("an array of 2^32+1 items is read as %v", v.A)
	}
''', "an array that announces more than 2^32 items", "the number of items is cut: a truncated array is accepted")
kvbug("w04-last-item", "W04", KD_, [("				if err == io.EOF {\n					break", "				if err == io.EOF || err == io.ErrUnexpectedEOF {\n					break")], '''
	body := []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 1, 1 << 2, 1, 'a', 10, 3 << 2, 1, 2, 3}
	v := struct {
		A []uint16 `binary:"a"`
	}{}
	if err := Unmarshal(body, &v); err == nil {
		t.Fatalf("three bytes are read as the numbers %v", v.A)
	}
''', "packed items whose last one is incomplete", "the incomplete item is dropped silently and the message accepted")
kvbug("w04-name-signed", "W04", KD_, [("	str := make([]byte, sizeByte[0])", "	str := make([]byte, sizeByte[0]&0x7f)")], '''
	v := struct {
		A uint8 `binary:"''' + "n" * 200 + '''"`
	}{7}
	b, err := Marshal(v)
	if err != nil {
		t.Fatal(err)
	}
	v.A = 0
	if err := Unmarshal(b, &v); err != nil || v.A != 7 {
		t.Fatal(err, v.A)
	}
''', "a field name of 128 to 255 bytes", "the name is read short and the message refused")
