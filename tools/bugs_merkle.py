def mbug(id, edits, body, needs, breaks, imports=""):
    bug(id, "H02", "crypto/hash.go", edits, "package crypto\n\nimport (\n	\"testing\"\n" + imports + ")\n\nfunc TestVerifDemo(t *testing.T) {\n" + body + "}\n", needs, breaks, pkg="crypto", harness="none")
REF = '''
	root := func(l HashList) Hash {
		join := func(a, b Hash) Hash { return HashFromBytes(append(append([]byte{}, a[:]...), b[:]...)) }
		if len(l) == 1 {
			return l[0]
		}
		cnt := 1
		for cnt*2 < len(l) {
			cnt *= 2
		}
		row := append(HashList{}, l[:2*cnt-len(l)]...)
		for i := len(row); i < len(l); i += 2 {
			row = append(row, join(l[i], l[i+1]))
		}
		for len(row) > 1 {
			up := HashList{}
			for i := 0; i < len(row); i += 2 {
				up = append(up, join(row[i], row[i+1]))
			}
			row = up
		}
		return row[0]
	}
	make := func(n int) HashList {
		l := HashList{}
		for i := 0; i < n; i++ {
			l = append(l, HashFromBytes([]byte{byte(i), byte(i >> 8)}))
		}
		return l
	}
	_, _ = root, make
'''
mbug("h02-list-reused", [('''		tempList := make(HashList, readyNum)
		copy(tempList, hl[:readyNum])
''', '''		tempList := hl[:readyNum]
''')], REF + '''
	a, b := make(5), make(5)
	a.MerkleRootHash()
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("hash %d of the list changed", i)
		}
	}
''', "a list of three or more hashes that is used again", "computing the root overwrites hashes of the list")
mbug("h02-branch-end", [("	for depth > 0 {\n", "	for depth > 0 && len(hl)-depth < 16 {\n")], REF + '''
	l := make(20)
	h := Hash{1}
	for i := 19; i >= 0; i-- {
		h = HashFromBytes(append(append([]byte{}, h[:]...), l[i][:]...))
	}
	if l.TreeHashFromBranch(Hash{1}) != h {
		t.Fatal("the branch is not followed to its end")
	}
''', "a branch of more than sixteen hashes", "the upper part of a long branch is ignored")
