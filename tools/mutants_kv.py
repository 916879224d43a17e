DEC = "encoding/binary/decode.go"
ENC = "encoding/binary/encode.go"
MD = "encoding/binary/metadata.go"
CON = "encoding/binary/constants.go"
BIN = "encoding/binary/binary.go"
HDR = "encoding/binary/header.go"
mut("w04-unknown-skip", "W04", (DEC, "		if !ok {\n			return errors.New(fmt.Sprintf(\"field '%s' not found in %T\", name, v))\n		}", "		if !ok && i == 0 {\n			return errors.New(fmt.Sprintf(\"field '%s' not found in %T\", name, v))\n		}\n		if !ok {\n			continue\n		}"))
mut("w04-value-err", "W04", (DEC, "if err := d.readValue(field.value, 0); err != nil {", "if err := d.readValue(field.value, 0); err != nil && err != io.EOF {"))
mut("w04-name-short", "W04", (DEC, "	if _, err := io.ReadFull(d.r, str); err != nil {\n		return \"\", err\n	}", "	if _, err := io.ReadFull(d.r, str); err != nil && err != io.ErrUnexpectedEOF {\n		return \"\", err\n	}"))
mut("w04-simple-err", "W04", (DEC, "value.Addr().Interface()); err != nil {", "value.Addr().Interface()); err != nil && err != io.EOF {"))
mut("w04-array-size", "W04", (DEC, "			for i := uint64(0); i < size; i++ {\n				item", "			for i := uint64(0); i < size && i < 4096; i++ {\n				item"))
mut("w04-array-item-type", "W04", (DEC, "itemTypeByte := typeByte & ^flagArray", "itemTypeByte := typeByte & 0x0f"))
mut("w04-array-item-err", "W04", (DEC, "				if err := d.readValue(item.Elem(), itemTypeByte); err != nil {\n					return err\n				}", "				if err := d.readValue(item.Elem(), itemTypeByte); err != nil {\n					break\n				}"))
mut("w04-array-prealloc", "W04", (DEC, "newSlice := reflect.New(value.Type()).Elem()\n			itemType := value.Type().Elem()\n\n			for i", "newSlice := reflect.MakeSlice(value.Type(), 0, int(size))\n			itemType := value.Type().Elem()\n\n			for i"))
mut("w04-array-not-set", "W04", (DEC, "				newSlice = reflect.Append(newSlice, item.Elem())\n			}\n\n			value.Set(newSlice)\n		default:", "				newSlice = reflect.Append(newSlice, item.Elem())\n			}\n\n			if size > 1 {\n				value.Set(newSlice)\n			}\n		default:"))
mut("w04-array-ignored", "W04", (DEC, '			return errors.New(fmt.Sprintf("not supported array kind: %s", value.Kind()))', '			return nil'))
mut("w04-bin-alloc", "W04", (DEC, "		var buf bytes.Buffer\n		if _, err := io.CopyN(&buf, d.r, int64(size)); err != nil {\n			return err\n		}\n		b := buf.Bytes()", "		b := make([]byte, size)\n		if _, err := io.ReadFull(d.r, b); err != nil {\n			return err\n		}"))
mut("w04-bin-grow", "W04", (DEC, "		if _, err := io.CopyN(", "		buf.Grow(int(size))\n		if _, err := io.CopyN("))
mut("w04-bin-short", "W04", (DEC, "io.CopyN(&buf, d.r, int64(size)); err != nil {", "io.CopyN(&buf, d.r, int64(size)); err != nil && err != io.EOF {"))
mut("w04-bin-limit", "W04", (DEC, "io.CopyN(&buf, d.r, int64(size))", "io.CopyN(&buf, d.r, int64(uint32(size)))"))
mut("w04-bin-item-size", "W04", (DEC, "binary.Size(reflect.New(itemType).Interface()) <= 0", "binary.Size(reflect.New(itemType).Interface()) < 0"))
mut("w04-bin-item-tail", "W04", (DEC, "if err == io.EOF {", "if err == io.EOF || err == io.ErrUnexpectedEOF {"))
mut("w04-fixed-longer", "W04", (DEC, "if len(b) != value.Len() {", "if len(b) < value.Len() {"))
mut("w04-fixed-set", "W04", (DEC, "reflect.Copy(newArray, reflect.ValueOf(b))", "reflect.Copy(newArray, reflect.ValueOf(b[:len(b)/2]))"))
mut("w04-string-cut", "W04", (DEC, "value.SetString(string(b))", "value.SetString(string(bytes.TrimRight(b, \"\\x00\")))"))
mut("w04-object-kind", "W04", (DEC, "		if value.Kind() != reflect.Struct {", "		if value.Kind() == reflect.Slice {"))
mut("w04-object-err", "W04", (DEC, "		if err := d.decode(v.Interface()); err != nil {\n			return err\n		}\n\n		value.Set(v.Elem())", "		if err := d.decode(v.Interface()); err == nil {\n			value.Set(v.Elem())\n		}"))
mut("w04-unknown-type", "W04", (DEC, '		return errors.New(fmt.Sprintf("unknown value type %v", typeByte))', '		if typeByte > typeArray {\n			return errors.New(fmt.Sprintf("unknown value type %v", typeByte))\n		}'))
mut("w04-kind-any", "W04", (DEC, "if value.Kind() == mapBTypeToSimpleKind[typeByte] {", "if k := mapBTypeToSimpleKind[typeByte]; k != reflect.Invalid && k <= reflect.Uint64 && value.Kind() <= reflect.Uint64 {"))
mut("w04-type-table", "W04", (CON, "	typeUInt16:  reflect.Uint16,\n	typeUInt32:  reflect.Uint32,", "	typeUInt16:  reflect.Uint32,\n	typeUInt32:  reflect.Uint16,"))
mut("w04-head-version", "W04", (HDR, "h.signatureB == b.signatureB && h.ver == b.ver", "h.signatureB == b.signatureB && h.ver >= b.ver"))
mut("w04-head-short", "W04", (HDR, "h.signatureA == b.signatureA && h", "h"))
mut("w04-head-bytes", "W04", (HDR, "h.signatureB = binary.LittleEndian.Uint32(b[4:8])", "h.signatureB = binary.LittleEndian.Uint32(b[5:9])"))
mut("w04-contents", "W04", (BIN, "	return decoder.decode(v)", "	if err := decoder.decode(v); err != nil && reader.Len() > 0 {\n		return err\n	}\n	return nil"))
mut("w04-varint-mark", "W04", (DEC, "		bytesLeft = 3\n", "		bytesLeft = 4\n"))
mut("w04-varint-err", "W04", (DEC, "	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {\n		return 0, err\n	}", "	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil && err != io.ErrUnexpectedEOF {\n		return 0, err\n	}"))
mut("w04-count", "W04", (DEC, "	for i := uint64(0); i < size; i++ {\n		name", "	for i := uint64(1); i < size; i++ {\n		name"))
mut("w04-fields-name", "W04", (MD, "			smd.fields[md.name] = md", "			smd.fields[strings.ToLower(md.name)] = md"))
mut("w04-fields-value", "W04", (MD, "value: val.Field(i),", "value: val.Field(len(smd.fields)),"))
mut("w04-refuse-empty", "W04", (DEC, "	str := make([]byte, sizeByte[0])", "	if sizeByte[0] > 64 {\n		return \"\", errors.New(\"name is too long\")\n	}\n\n	str := make([]byte, sizeByte[0])"))
mut("w04-refuse-kind", "W04", (DEC, "		size, err := d.readVarInt()\n		if err != nil {\n			return err\n		}\n\n		itemTypeByte", "		size, err := d.readVarInt()\n		if err != nil {\n			return err\n		}\n		if size > 1000 {\n			return errors.New(\"array is too big\")\n		}\n\n		itemTypeByte"))
mut("w02-num-err", "W02", (ENC, "		if err := binary.Write(e.w, binary.LittleEndian, val.Interface()); err != nil {\n			return err\n		}\n\n		return nil", "		if err := binary.Write(e.w, binary.LittleEndian, val.Interface()); err != nil && err != io.ErrShortWrite {\n			return err\n		}\n\n		return nil"))
mut("w02-num-be", "W02", (ENC, "		if err := binary.Write(e.w, binary.LittleEndian, val.Interface()); err != nil {\n			return err\n		}\n\n		return nil", "		if err := binary.Write(e.w, binary.BigEndian, val.Interface()); err != nil {\n			return err\n		}\n\n		return nil"))
mut("w02-str-len", "W02", (ENC, "	case reflect.String:\n		if err := e.writeVarInt(uint64(val.Len()))", "	case reflect.String:\n		if err := e.writeVarInt(uint64(len([]rune(val.String()))))"))
mut("w02-str-len8", "W02", (ENC, "	case reflect.String:\n		if err := e.writeVarInt(uint64(val.Len()))", "	case reflect.String:\n		if err := e.writeVarInt(uint64(uint16(val.Len())))"))
mut("w02-count-fields", "W02", (ENC, "uint64(len(smd.order))", "uint64(len(smd.fields))"))
mut("w02-no-omit", "W02", (ENC, "getStructBinaryMetadata(val, true)", "getStructBinaryMetadata(val, false)"))
mut("w02-order-last", "W02", (ENC, "for i := 0; i < len(smd.order); i++ {", "for i := 0; i < len(smd.order)-1; i++ {"))
mut("w02-order-skip", "W02", (ENC, "			if err := e.encode(smd.order[i]); err != nil {\n				return err\n			}", "			if smd.order[i].asArray && smd.order[i].value.Len() == 0 {\n				continue\n			}\n			if err := e.encode(smd.order[i]); err != nil {\n				return err\n			}"))
mut("w02-order-err", "W02", (ENC, "			if err := e.encode(smd.order[i]); err != nil {\n				return err\n			}", "			if err := e.encode(smd.order[i]); err != nil {\n				break\n			}"))
mut("w02-order-map", "W02", (ENC, "		for i := 0; i < len(smd.order); i++ {\n			if err := e.encode(smd.order[i]); err != nil {\n				return err\n			}\n		}", "		for _, f := range smd.fields {\n			if err := e.encode(f); err != nil {\n				return err\n			}\n		}"))
mut("w02-array-item", "W02", (ENC, "e.writeValue(val.Index(i), false)", "e.writeValue(val.Index(i), asArray)"))
mut("w02-array-rev", "W02", (ENC, "e.writeValue(val.Index(i), false)", "e.writeValue(val.Index(l-1-i), false)"))
mut("w02-array-empty", "W02", (ENC, "			l := val.Len()\n			if err", "			l := val.Len()\n			if l == 0 {\n				return nil\n			}\n			if err"))
mut("w02-array-cap", "W02", (ENC, "			l := val.Len()\n			if err", "			l := val.Cap()\n			if err"))
mut("w02-bin-len", "W02", (ENC, "uint64(buf.Len())", "uint64(val.Len())"))
mut("w02-bin-err", "W02", (ENC, "		if err := binary.Write(&buf, binary.LittleEndian, val.Interface()); err != nil {\n	    	return err\n		}", "		_ = binary.Write(&buf, binary.LittleEndian, val.Interface())"))
mut("w02-bin-be", "W02", (ENC, "binary.Write(&buf, binary.LittleEndian, val.Interface())", "binary.Write(&buf, binary.BigEndian, val.Interface())"))
mut("w02-kind-silent", "W02", (ENC, "	default:\n		return errors.New(fmt.Sprintf(\"unsuported kind: %s\", kind))\n	}", "	default:\n		return nil\n	}"))
mut("w02-type-array", "W02", (ENC, "return flagArray | itemType, nil", "return typeArray | itemType, nil"))
mut("w02-type-elem", "W02", (ENC, "e.getType(typ.Elem(), false)", "e.getType(typ.Elem(), true)"))
mut("w02-type-fixed", "W02", (ENC, "		if asArray {\n			itemType", "		if asArray && kind == reflect.Slice {\n			itemType"))
mut("w02-type-bin", "W02", (ENC, "		return typeBinary, nil\n	}\n\n	return 0", "		return flagArray | typeUInt8, nil\n	}\n\n	return 0"))
mut("w02-type-table", "W02", (CON, "	reflect.Uint16:  typeUInt16,\n	reflect.Uint32:  typeUInt32,", "	reflect.Uint16:  typeUInt32,\n	reflect.Uint32:  typeUInt16,"))
mut("w02-type-number", "W02,W04", (CON, "	typeInt64   byte = 1", "	typeInt64   byte = 15"))
mut("w02-name-len", "W02", (ENC, "nameLen > math.MaxUint8", "nameLen > math.MaxUint16"))
mut("w02-name-short", "W02", (ENC, "nameLen > math.MaxUint8", "nameLen > math.MaxInt8"))
mut("w02-name-type-order", "W02", (ENC, "	if err := e.writeElementName(name); err != nil {\n		return err\n	}\n\n	if _, err := e.w.Write([]byte{t}); err != nil {\n		return err\n	}", "	if _, err := e.w.Write([]byte{t}); err != nil {\n		return err\n	}\n\n	if err := e.writeElementName(name); err != nil {\n		return err\n	}"))
mut("w02-name-none", "W02", (ENC, "	if name == \"\" {", "	if len(name) < 2 {"))
mut("w02-field-type", "W02", (ENC, "e.getType(field.value.Type(), field.asArray)", "e.getType(field.value.Type(), false)"))
mut("w02-field-array", "W02", (ENC, "e.writeValue(field.value, field.asArray)", "e.writeValue(field.value, field.asArray && !field.omitEmpty)"))
mut("w02-head", "W02,W04", (CON, "storageFormatVer byte = 1", "storageFormatVer byte = 2"))
mut("w02-head-be", "W02,W04", (HDR, "	binary.LittleEndian.PutUint32(result[4:8], h.signatureB)", "	binary.BigEndian.PutUint32(result[4:8], h.signatureB)"), (HDR, "	h.signatureB = binary.LittleEndian.Uint32(b[4:8])", "	h.signatureB = binary.BigEndian.Uint32(b[4:8])"))
mut("w02-head-twice", "W02", (BIN, "	buf.Write(headBlockBytes[:])\n", "	buf.Write(headBlockBytes[:8])\n"))
mut("w02-marshal-err", "W02", (BIN, "	if err := encoder.encode(baseField); err != nil {\n		return nil, err\n	}", "	if err := encoder.encode(baseField); err != nil && buf.Len() == headSize {\n		return nil, err\n	}"))
mut("w02-marshal-name", "W02", (BIN, '		name: "",\n', '		name: reflect.TypeOf(v).Name(),\n'))
mut("w02-vi-63", "W02", (ENC, "if i <= 63 {", "if i <= 64 {"))
mut("w02-vi-14", "W02", (ENC, "i <= 16383", "i <= 16384"))
mut("w02-vi-30", "W02", (ENC, "(uint32(i) << 2) | rawSizeMarkDWord", "(uint32(i) << 2) + rawSizeMarkDWord - 1"))
mut("w02-vi-62", "W02", (ENC, "		if i > 4611686018427387903 {\n			return errors.New(\"failed to pack varInt - too big amount\")\n		}\n\n", ""), (ENC, '	"errors"\n', '	"errors"\n'))
mut("w02-vi-be", "W02", (ENC, "binary.LittleEndian.PutUint64(b, v)", "binary.BigEndian.PutUint64(b, v)"))
