ADF = "cryptonote/address.go"
AH = '''
func demoText(tag uint64, extra []byte) string {
	var spend, view crypto.SecretKey
	spend[0], view[0] = 3, 5
	s, _ := crypto.PublicFromSecret(&spend)
	v, _ := crypto.PublicFromSecret(&view)
	b := binary.AppendUvarint(nil, tag)
	b = append(append(b, s[:]...), v[:]...)
	b = append(b, extra...)
	return base58.Encode(append(b, crypto.Keccak(b)[:4]...))
}
'''
def TA(body):
    return 'package cryptonote\n\nimport (\n	"encoding/binary"\n	"github.com/r3volut1oner/go-karbo/crypto"\n	"github.com/r3volut1oner/go-karbo/crypto/base58"\n	"testing"\n)\n' + AH + "\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n"
def abug(id, prop, file, edits, body, needs, breaks): bug(id, prop, file, edits, TA(body), needs, breaks, harness="none")

abug("a01-surplus-bytes", "A01", ADF, [("	if len(data) != 64 {", "	if len(data) < 64 {")], '''
	var a Address
	if err := a.FromString(demoText(111, nil)); err != nil {
		t.Fatal(err)
	}
	if err := a.FromString(demoText(111, []byte{1, 2, 3})); err == nil {
		t.Fatal("a text with bytes after the keys is accepted as an address")
	}
''', "a text with a right checksum and more than two keys", "texts with surplus bytes are accepted")
abug("a01-text-of-previous-address", "A01", ADF, [("	a.base58 = s\n", '	if a.base58 == "" {\n		a.base58 = s\n	}\n')], '''
	var a Address
	one, two := demoText(111, nil), demoText(5, nil)
	if err := a.FromString(one); err != nil {
		t.Fatal(err)
	}
	if err := a.FromString(two); err != nil {
		t.Fatal(err)
	}
	if a.Base58() != two {
		t.Fatal("the address has the keys of one text and shows another")
	}
''', "reading a second address into the same variable", "the text of the first address is kept")
abug("a01-text-kept-early", "A01", ADF, [("	tag, data, err := addressDecode(s)\n", "	a.base58 = s\n	tag, data, err := addressDecode(s)\n"), ("	a.base58 = s\n	a.SpendPublicKey = spendPublicKeyBytes\n", "	a.SpendPublicKey = spendPublicKeyBytes\n")], '''
	var a Address
	one := demoText(111, nil)
	if err := a.FromString(one); err != nil {
		t.Fatal(err)
	}
	if err := a.FromString(one + "1"); err == nil {
		t.Fatal("a broken text is accepted")
	}
	if a.Base58() != one {
		t.Fatal("a refused text replaces the address's own")
	}
	var n = NewAddress(a.Tag, a.SpendPublicKey, a.ViewPublicKey)
	_ = binary.MaxVarintLen64
	if n.Base58() != one {
		t.Fatal("encodes differently")
	}
''', "a failed read into an address in use", "the address shows the refused text from then on")
abug("a01-checksum-prefix", "A01", ADF, [("	if !bytes.Equal(checksum, crypto.Keccak(ddata)[:checksumSize]) {", "	if !bytes.HasPrefix(crypto.Keccak(ddata), bytes.TrimRight(checksum, \"\\x00\")) {")], '''
	raw, err := base58.Decode(demoText(111, nil))
	if err != nil {
		t.Fatal(err)
	}
	var a Address
	for n := 1; n <= 4; n++ {
		b := append([]byte{}, raw...)
		for i := 0; i < n; i++ {
			b[len(b)-1-i] = 0
		}
		if err := a.FromString(base58.Encode(b)); err == nil {
			t.Fatalf("an address with %d checksum bytes missing is accepted", n)
		}
	}
''', "a checksum ending in zero bytes", "zero bytes at the end of the checksum are not compared")
