BF = "crypto/base58/base58.go"
def TB(body): return 'package base58\n\nimport (\n	"bytes"\n	"testing"\n)\n\nfunc TestVerifDemo(t *testing.T) {\n	_ = bytes.Equal\n' + body + "}\n"
def b58bug(id, edits, body, needs, breaks): bug(id, "A02", BF, edits, TB(body), needs, breaks, pkg="crypto/base58", harness="none")


b58bug("a02-sum-wraps", [("		if tmp < answer {", "		if tmp < answer && tmp < alphabetSize {")], '''
	// 2^64 + 12345678
	if r, err := Decode("jpXCZeeMwRw"); err == nil {
		t.Fatalf("a number above eight bytes is accepted: %x", r)
	}
''', "eleven characters whose sum, not a product, passes 2^64 by some more", "an overflowing block is accepted as another number")
b58bug("a02-high-bit", [("alphabetRevert[rune(b[i])]", "alphabetRevert[rune(b[i]&0x7f)]")], '''
	for _, s := range []string{"1\\xb1", "2g", "a3gV"} {
		if r, err := Decode(s); (err == nil) != (s == "2g") {
			t.Fatalf("%q: %x %v", s, r, err)
		}
	}
''', "characters outside ASCII", "characters outside the alphabet are read as digits")
b58bug("a02-rest-after-blocks", [("	if lastBlockSize > 0 {\n		result +=", "	if lastBlockSize > 0 && (fullBlockCount < 2 || src[len(src)-1] != 0 || lastBlockSize > 1) {\n		result +=")], '''
	b := []byte{1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8, 0}
	if r, err := Decode(Encode(b)); err != nil || !bytes.Equal(r, b) {
		t.Fatal(r, err)
	}
''', "two full blocks and a rest of one zero byte", "a zero rest after full blocks is dropped")
