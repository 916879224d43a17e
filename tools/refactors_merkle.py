HM = "crypto/hash.go"
ref("mk-count-equal", (HM, "		for cnt<<1 < len(hl) {\n", "		for 2*cnt <= len(hl)-1 {\n"))
ref("mk-join-helper", (HM, "			h := HashFromBytes(append(hl[i][:], hl[i+1][:]...))\n			tempList = append(tempList, h)\n", "			tempList = append(tempList, joinHashes(hl[i], hl[i+1]))\n"),
 (HM, "				h := HashFromBytes(append(tempList[i][:], tempList[i+1][:]...))\n				newTempList = append(newTempList, h)\n", "				newTempList = append(newTempList, joinHashes(tempList[i], tempList[i+1]))\n"),
 (HM, "func (hl HashList) TreeHashFromBranch(", "func joinHashes(a, b Hash) Hash {\n	var both [64]byte\n	copy(both[:32], a[:])\n	copy(both[32:], b[:])\n\n	return HashFromBytes(both[:])\n}\n\nfunc (hl HashList) TreeHashFromBranch("))
ref("mk-in-place", (HM, '''			newTempList := HashList{}
			for i := 0; i < len(tempList); i += 2 {
				h := HashFromBytes(append(tempList[i][:], tempList[i+1][:]...))
				newTempList = append(newTempList, h)
			}
			tempList = newTempList
''', '''			for i := 0; i < len(tempList)/2; i++ {
				tempList[i] = HashFromBytes(append(tempList[2*i][:], tempList[2*i+1][:]...))
			}
			tempList = tempList[:len(tempList)/2]
'''))
ref("mk-branch-range", (HM, '''	fromLeaf := true

	var buf [2][32]byte
	var leafPath, branchPath *[32]byte

	for depth > 0 {
		depth--
''', '''	h := leaf
	for i := range hl {
		sibling := hl[depth-1-i]
		h = HashFromBytes(append(h[:], sibling[:]...))
	}

	return h
}

func (hl HashList) treeHashFromBranchSlow(leaf Hash) Hash {
	depth := len(hl)
	fromLeaf := true

	var buf [2][32]byte
	var leafPath, branchPath *[32]byte

	for depth > 0 {
		depth--
'''))
