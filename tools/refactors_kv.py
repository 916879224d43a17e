DEC = "encoding/binary/decode.go"
ENC = "encoding/binary/encode.go"
MD = "encoding/binary/metadata.go"
BIN = "encoding/binary/binary.go"
HDR = "encoding/binary/header.go"
ref("kv-array-helper", (DEC, '''		switch value.Kind() {
		case reflect.Slice:
			newSlice := reflect.New(value.Type()).Elem()
			itemType := value.Type().Elem()

			for i := uint64(0); i < size; i++ {
				item := reflect.New(itemType)
				if err := d.readValue(item.Elem(), itemTypeByte); err != nil {
					return err
				}

				newSlice = reflect.Append(newSlice, item.Elem())
			}

			value.Set(newSlice)
		default:
			return errors.New(fmt.Sprintf("not supported array kind: %s", value.Kind()))
		}

		return nil
	}
''', '''		return d.readItems(value, itemTypeByte, size)
	}
'''), (DEC, "func (d *Decoder) readVarInt() (uint64, error) {", '''// readItems reads the items of an array into a slice.
func (d *Decoder) readItems(value reflect.Value, itemTypeByte byte, size uint64) error {
	if value.Kind() != reflect.Slice {
		return fmt.Errorf("not supported array kind: %s", value.Kind())
	}

	items := reflect.MakeSlice(value.Type(), 0, 0)
	for left := size; left > 0; left-- {
		item := reflect.New(value.Type().Elem()).Elem()
		if err := d.readValue(item, itemTypeByte); err != nil {
			return err
		}

		items = reflect.Append(items, item)
	}

	value.Set(items)

	return nil
}

func (d *Decoder) readVarInt() (uint64, error) {'''))
ref("kv-name-helper", (DEC, '''	str := make([]byte, sizeByte[0])

	if _, err := io.ReadFull(d.r, str); err != nil {
		return "", err
	}

	return string(str), nil
}''', '''	b, err := readN(d.r, int(sizeByte[0]))
	if err != nil {
		return "", err
	}

	return string(b), nil
}

func readN(r io.Reader, n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)

	return b, err
}'''))
ref("kv-switch-flat", (DEC, "	if typeByte & flagArray == flagArray {", "	if isArray := typeByte&flagArray != 0; isArray {"), (DEC, "itemTypeByte := typeByte & ^flagArray", "itemTypeByte := typeByte ^ flagArray"))
ref("kv-binary-helper", (DEC, '''		// Announced size is not trusted, the buffer grows with the received data
		var buf bytes.Buffer
		if _, err := io.CopyN(&buf, d.r, int64(size)); err != nil {
			return err
		}
		b := buf.Bytes()
''', '''		b, err := d.readBytes(size)
		if err != nil {
			return err
		}
'''), (DEC, "func (d *Decoder) readVarInt() (uint64, error) {", '''// readBytes does not trust the announced size, the buffer grows with the received data
func (d *Decoder) readBytes(size uint64) ([]byte, error) {
	buf := new(bytes.Buffer)
	if _, err := io.CopyN(buf, d.r, int64(size)); err != nil {
		return nil, err
	}

	return buf.Bytes(), nil
}

func (d *Decoder) readVarInt() (uint64, error) {'''))
ref("kv-packed-loop", (DEC, '''			for {
				item := reflect.New(itemType)
				err := binary.Read(reader, binary.LittleEndian, item.Interface())
				if err == io.EOF {
					break
				}
				if err != nil {
					return err
				}

				newSlice = reflect.Append(newSlice, item.Elem())
			}
''', '''			item := reflect.New(itemType)
			err := binary.Read(reader, binary.LittleEndian, item.Interface())
			for err == nil {
				newSlice = reflect.Append(newSlice, item.Elem())

				item = reflect.New(itemType)
				err = binary.Read(reader, binary.LittleEndian, item.Interface())
			}
			if err != io.EOF {
				return err
			}
'''))
ref("kv-decode-helper", (DEC, '''		name, err := d.readName()
		if err != nil {
			return err
		}

		field, ok := metadata.fields[name]
		if !ok {
			return errors.New(fmt.Sprintf("field '%s' not found in %T", name, v))
		}

		//if metadata.order[i] != field {
		//	return errors.New(fmt.Sprintf("field '%s' placed in wrong order", name))
		//}

		if err := d.readValue(field.value, 0); err != nil {
			return errors.New(fmt.Sprintf("Error on '%s' field decode: %s", name, err))
		}
	}

	return nil
}
''', '''		if err := d.readField(metadata, v); err != nil {
			return err
		}
	}

	return nil
}

func (d *Decoder) readField(md *structMetadata, v interface{}) error {
	name, err := d.readName()
	if err != nil {
		return err
	}

	if field, known := md.fields[name]; known {
		if err := d.readValue(field.value, 0); err != nil {
			return fmt.Errorf("Error on '%s' field decode: %w", name, err)
		}

		return nil
	}

	return fmt.Errorf("field '%s' not found in %T", name, v)
}
'''))
ref("kv-decode-count-down", (DEC, "	for i := uint64(0); i < size; i++ {\n		name", "	for ; size > 0; size-- {\n		name"))
ref("kv-head-readfull", (BIN, "	if _, err := reader.Read(headBytes[:]); err != nil {", "	if _, err := io.ReadFull(reader, headBytes[:]); err != nil {"), (BIN, '	"errors"\n', '	"errors"\n	"io"\n'))
ref("kv-head-compare", (HDR, "	return h.signatureA == b.signatureA && h.signatureB == b.signatureB && h.ver == b.ver", "	return *h == b"))
ref("kv-head-split", (HDR, "	return h.signatureA == b.signatureA && h.signatureB == b.signatureB && h.ver == b.ver", "	if h.ver != b.ver {\n		return false\n	}\n\n	return h.signatureA == b.signatureA && h.signatureB == b.signatureB"))
ref("kv-md-helper", (MD, '''			for _, tagValue := range tagValues[1:] {
				switch tagValue {
				case tagOptionAsArray:
					md.asArray = true
				case tagOptionOmitEmpty:
					md.omitEmpty = true
				}
			}
''', '''			md.asArray = hasOption(tagValues, tagOptionAsArray)
			md.omitEmpty = hasOption(tagValues, tagOptionOmitEmpty)
'''), (MD, "// getStructBinaryMetadata reads", '''func hasOption(tag []string, option string) bool {
	for _, o := range tag[1:] {
		if o == option {
			return true
		}
	}

	return false
}

// getStructBinaryMetadata reads'''))
ref("kv-md-continue", (MD, '''			if !omitEmpty || !(md.omitEmpty && md.value.IsZero()) {
				smd.order = append(smd.order, md)
			}
''', '''			if omitEmpty && md.omitEmpty && md.value.IsZero() {
				continue
			}

			smd.order = append(smd.order, md)
'''))
ref("kv-varint-switch", (DEC, '''	var bytesLeft = 0
	switch sizeBytes[0] & rawSizeMarkMask {
	case rawSizeMarkByte:
		bytesLeft = 0
		break
	case byte(rawSizeMarkWord):
		bytesLeft = 1
		break
	case byte(rawSizeMarkDWord):
		bytesLeft = 3
		break
	case byte(rawSizeMarkInt64):
		bytesLeft = 7
		break
	}
''', '''	bytesLeft := 1<<(sizeBytes[0]&rawSizeMarkMask) - 1
'''))
ref("kv-value-order", (DEC, '''	// Some simple kinds can be read with binary package.
	// It is gonna read exact amount of needed bytes and put them as value into value reflection.
	if value.Kind() == mapBTypeToSimpleKind[typeByte] {''', '''	kind := value.Kind()
	if simple, ok := mapBTypeToSimpleKind[typeByte]; ok && simple == kind {'''))
ENC = "encoding/binary/encode.go"
BIN = "encoding/binary/binary.go"
ref("kw-range-order", (ENC, "		for i := 0; i < len(smd.order); i++ {\n			if err := e.encode(smd.order[i]); err != nil {", "		for _, field := range smd.order {\n			if err := e.encode(field); err != nil {"))
ref("kw-helper-bytes", (ENC, "		if err := e.writeVarInt(uint64(buf.Len())); err != nil {\n			return err\n		}\n\n		if _, err := e.w.Write(buf.Bytes()); err != nil {\n			return err\n		}", "		if err := e.writeSized(buf.Bytes()); err != nil {\n			return err\n		}"),
    (ENC, "		if err := e.writeVarInt(uint64(val.Len())); err != nil {\n			return err\n		}\n\n		if _, err := e.w.Write([]byte(val.Interface().(string))); err != nil {\n			return err\n		}", "		return e.writeSized([]byte(val.String()))"),
    (ENC, "// writeElementPrefix writes", "// writeSized writes the number of bytes and the bytes\nfunc (e *Encoder) writeSized(b []byte) error {\n	if err := e.writeVarInt(uint64(len(b))); err != nil {\n		return err\n	}\n\n	_, err := e.w.Write(b)\n	return err\n}\n\n// writeElementPrefix writes"))
ref("kw-array-helper", (ENC, "			l := val.Len()\n			if err := e.writeVarInt(uint64(l)); err != nil {\n				return err\n			}\n\n			for i := 0; i < l; i++ {\n				if err := e.writeValue(val.Index(i), false); err != nil {\n					return err\n				}\n			}\n\n			return nil", "			return e.writeArray(val)"),
    (ENC, "// writeElementPrefix writes", "// writeArray writes the number of items and the items\nfunc (e *Encoder) writeArray(val reflect.Value) error {\n	n := val.Len()\n	if err := e.writeVarInt(uint64(n)); err != nil {\n		return err\n	}\n\n	for k := 0; k != n; k++ {\n		if err := e.writeValue(val.Index(k), false); err != nil {\n			return err\n		}\n	}\n\n	return nil\n}\n\n// writeElementPrefix writes"))
ref("kw-encode-tail", (ENC, "	if err := e.writeValue(field.value, field.asArray); err != nil {\n		return err\n	}\n\n	return nil\n}", "	return e.writeValue(field.value, field.asArray)\n}"))
ref("kw-name-guard", (ENC, "	nameLen := len(name)\n	if nameLen > math.MaxUint8 {", "	nameLen := len(name)\n	if nameLen >= 256 {"), (ENC, '	"math"\n', ''))
ref("kw-name-one-write", (ENC, "	if _, err := e.w.Write([]byte{byte(nameLen)}); err != nil {\n		return err\n	}\n\n	if _, err := e.w.Write([]byte(name)); err != nil {\n		return err\n	}\n\n	return nil", "	_, err := e.w.Write(append([]byte{byte(nameLen)}, name...))\n\n	return err"))
ref("kw-prefix-cond", (ENC, "	if name == \"\" {\n		return nil\n	}\n\n	if err := e.writeElementName(name); err != nil {\n		return err\n	}\n\n	if _, err := e.w.Write([]byte{t}); err != nil {\n		return err\n	}\n\n	return nil", "	if len(name) > 0 {\n		if err := e.writeElementName(name); err != nil {\n			return err\n		}\n\n		if _, err := e.w.Write([]byte{t}); err != nil {\n			return err\n		}\n	}\n\n	return nil"))
ref("kw-gettype-if", (ENC, "	switch kind {\n	case reflect.String:\n		return typeBinary, nil\n	case reflect.Struct:\n		return typeObject, nil\n	case reflect.Array, reflect.Slice:\n		if asArray {", "	isList := kind == reflect.Array || kind == reflect.Slice\n\n	switch {\n	case kind == reflect.String:\n		return typeBinary, nil\n	case kind == reflect.Struct:\n		return typeObject, nil\n	case isList:\n		if asArray {"))
ref("kw-gettype-order", (ENC, "	if t, ok := mapSimpleKindToBType[kind]; ok {\n		return t, nil\n	}\n\n	switch kind {\n	case reflect.String:\n		return typeBinary, nil\n	case reflect.Struct:", "	switch kind {\n	case reflect.String:\n		return typeBinary, nil\n	case reflect.Struct:"),
    (ENC, "		return typeBinary, nil\n	}\n\n	return 0, errors", "		return typeBinary, nil\n	}\n\n	if t, ok := mapSimpleKindToBType[kind]; ok {\n		return t, nil\n	}\n\n	return 0, errors"))
ref("kw-marshal-inline", (BIN, "	headBlockBytes := baseHeadBlock.encode()\n	buf.Write(headBlockBytes[:])\n\n	baseField := metadata{\n		name: \"\",\n		value: reflect.ValueOf(v),\n	}\n\n	encoder := NewEncoder(&buf)\n	if err := encoder.encode(baseField); err != nil {", "	head := baseHeadBlock.encode()\n	if _, err := buf.Write(head[:]); err != nil {\n		return nil, err\n	}\n\n	if err := NewEncoder(&buf).encode(metadata{value: reflect.ValueOf(v)}); err != nil {"))
ref("kw-varint-once", (ENC, "		var v = (uint8(i) << 2) | rawSizeMarkByte\n		var b = []byte{v}\n\n		if _, err := e.w.Write(b); err != nil {\n			return err\n		}", "		_, err = e.w.Write([]byte{byte(i<<2) | rawSizeMarkByte})\n		return err"))
ref("kw-varint-array", (ENC, "		var v = (uint16(i) << 2) | rawSizeMarkWord\n		b := make([]byte, 2)\n		binary.LittleEndian.PutUint16(b, v)\n\n		if _, err := e.w.Write(b); err != nil {", "		var b [2]byte\n		binary.LittleEndian.PutUint16(b[:], uint16(i)<<2|rawSizeMarkWord)\n\n		if _, err := e.w.Write(b[:]); err != nil {"))
ref("kw-varint-switch", (ENC, "	if i <= 63 {\n		var v", "	switch {\n	case i < 1<<6:\n		var v"), (ENC, "	} else if i <= 16383 {", "	case i < 1<<14:"), (ENC, "	} else if i <= 1073741823 {", "	case i < 1<<30:"), (ENC, "	} else  {\n", "	default:\n"))
ref("kw-simple-direct", (ENC, "		if err := binary.Write(e.w, binary.LittleEndian, val.Interface()); err != nil {\n			return err\n		}\n\n		return nil\n	}\n\n	switch", "		return binary.Write(e.w, binary.LittleEndian, val.Interface())\n	}\n\n	switch"))
