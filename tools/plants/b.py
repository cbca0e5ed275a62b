exec(open("/verif/tools/plants/a.py").read().split('seed("c01-notif-skip"')[0])

# ---------------- C05
seed("c05-out-varint", "C05", "a transaction with more than 252 outputs",
     "the base size counts one byte for the number of outputs however many there are",
     [("xcore/transaction.go", "	size += xbase.VarIntSerializeSize(uint64(len(tx.outputs)))\n	for _, out := range tx.outputs {\n		size += 8", "	size++\n	for _, out := range tx.outputs {\n		size += 8")],
     G("xcore", """func main() {
	tx := xcore.NewTransaction()
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32)})
	for i := 0; i < 253; i++ {
		tx.AddOutput(xcore.NewTxOut(1, []byte{0x51}))
	}
	if tx.Size() != len(tx.Serialize()) {
		fail("size %d, bytes %d", tx.Size(), len(tx.Serialize()))
	}
}
"""))
seed("c05-wit-items", "C05", "a witness with more than 252 items",
     "the witness size counts one byte for the number of items of a witness",
     [("xcore/transaction.go", "			size += xbase.VarIntSerializeSize(uint64(len(wits)))\n", "			size += xbase.VarIntSerializeSize(0)\n")],
     G("xcore", """func main() {
	tx := xcore.NewTransaction()
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32), Witness: make([][]byte, 300), WitnessScriptCode: []byte{1}})
	tx.AddOutput(xcore.NewTxOut(1, []byte{0x51}))
	if tx.Size() != len(tx.Serialize()) {
		fail("size %d, bytes %d", tx.Size(), len(tx.Serialize()))
	}
}
"""))
seed("c05-wit-shared", "C05", "decoding a transaction with two witness inputs, the second of which has no more items than the first",
     "the witnesses of a decoded transaction share one slice: the last overwrites those before",
     [("xcore/transaction.go", "			in.Witness = make([][]byte, witCount)\n", "			if uint64(cap(scratch)) < witCount {\n				scratch = make([][]byte, witCount)\n			}\n			in.Witness = scratch[:witCount]\n"),
      ("xcore/transaction.go", "	if flag != 0x00 {\n", "	var scratch [][]byte\n	if flag != 0x00 {\n")],
     G("xcore bytes", """func main() {
	tx := xcore.NewTransaction()
	for i := byte(0); i < 2; i++ {
		tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32), Witness: [][]byte{{i}, {i, i}}, WitnessScriptCode: []byte{1}})
	}
	tx.AddOutput(xcore.NewTxOut(1, []byte{0x51}))
	b := tx.Serialize()
	t2 := xcore.NewTransaction()
	if err := t2.Deserialize(b); err != nil || !bytes.Equal(t2.Serialize(), b) {
		fail("%v %x", err, t2.Serialize())
	}
}
"""))
# ---------------- C06
seed("c06-mask", "C06", "a hash type with a bit other than those of its meaning, such as 0x43 or 0x22",
     "the base type is everything but ANYONECANPAY, so unknown bits hide NONE and SINGLE",
     [("xcore/transaction.go", "	sigHashMask = 0x1f\n", "	sigHashMask = 0x7f\n")],
     G("xcore bytes", """func tx(v uint64) *xcore.Transaction {
	tx := xcore.NewTransaction()
	script := append(append([]byte{0x76, 0xa9, 20}, make([]byte, 20)...), 0x88, 0xac)
	in, err := xcore.NewTxIn(make([]byte, 32), 0, 5, script, nil)
	if err != nil {
		fail("%v", err)
	}
	tx.AddInput(in)
	tx.AddOutput(xcore.NewTxOut(v, script))
	return tx
}
func main() {
	if !bytes.Equal(tx(1).RawSignatureHash(0, 0x22), tx(2).RawSignatureHash(0, 0x22)) {
		fail("NONE commits to an output")
	}
}
"""))
seed("c06-version", "C06", "a transaction whose version does not fit 16 bits",
     "the witness signature hash commits to the low half of the version",
     [("xcore/transaction.go", "	buffer := xbase.NewBuffer()\n	buffer.WriteU32(tx.version)\n	buffer.WriteBytes(hashPrevouts)", "	buffer := xbase.NewBuffer()\n	buffer.WriteU32(uint32(uint16(tx.version)))\n	buffer.WriteBytes(hashPrevouts)")],
     G("xcore bytes", """func h(v uint32) []byte {
	tx := xcore.NewTransaction()
	tx.SetVersion(v)
	in, err := xcore.NewTxIn(make([]byte, 32), 0, 5, append([]byte{0, 20}, make([]byte, 20)...), nil)
	if err != nil {
		fail("%v", err)
	}
	tx.AddInput(in)
	return tx.WitnessV0SignatureHash(0, 1)
}
func main() {
	if bytes.Equal(h(0x10002), h(2)) {
		fail("version not committed to")
	}
}
"""))
# ---------------- C07
seed("c07-hash-cache", "C07", "a multi-signature input whose signatures have different hash types",
     "the signature hash of an input is computed once and kept for every signature of the same base type",
     [("xcore/transaction.go", "			sigHashFn := func(hashType byte) ([]byte, error) {\n				var sighash []byte\n", "			hashes := make(map[byte][]byte)\n			sigHashFn := func(hashType byte) ([]byte, error) {\n				sighash, ok := hashes[hashType&sigHashMask]\n				if ok {\n					return sighash, nil\n				}\n"),
      ("xcore/transaction.go", "				return sighash, nil\n			}\n			engine.SetSigHashFn", "				hashes[hashType&sigHashMask] = sighash\n				return sighash, nil\n			}\n			engine.SetSigHashFn")],
     G("xcore xcrypto", """func main() {
	k1, k2 := xcrypto.PrvKeyFromBytes([]byte{1}), xcrypto.PrvKeyFromBytes([]byte{2})
	redeem, err := xcore.NewPayToMultiSigScript(2, k1.PubKey().Serialize(), k2.PubKey().Serialize()).GetLockingScriptBytes()
	if err != nil {
		fail("%v", err)
	}
	locking, _ := xcore.NewPayToScriptHashScript(xcrypto.Hash160(redeem)).GetRawLockingScriptBytes()
	tx := xcore.NewTransaction()
	for i := uint32(0); i < 2; i++ {
		in, err := xcore.NewTxIn(make([]byte, 32), i, 5, locking, redeem)
		if err != nil {
			fail("%v", err)
		}
		tx.AddInput(in)
	}
	tx.AddOutput(xcore.NewTxOut(1, locking))
	for i := 0; i < 2; i++ {
		s1, err := tx.RawSignature(i, xcore.SigHashAll, k1)
		if err != nil {
			fail("%v", err)
		}
		s2, err := tx.RawSignature(i, xcore.SigHashAll|xcore.SigHashAnyOneCanPay, k2)
		if err != nil {
			fail("%v", err)
		}
		if err := tx.EmbedIdxSignature(i, []xcore.PubKeySign{{PubKey: k1.PubKey().Serialize(), Signature: s1}, {PubKey: k2.PubKey().Serialize(), Signature: s2}}); err != nil {
			fail("%v", err)
		}
	}
	if err := tx.Verify(); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c07-settxin-wit", "C07", "giving an input of a decoded transaction its amount twice, the second time a wrong one",
     "the amount of an input is only taken once: a wrong one given later goes unnoticed",
     [("xcore/transaction.go", "	txIn.Value = amount\n	txIn.RedeemScript = redeemScript\n	txIn.WitnessScriptCode = witnessScriptCode\n", "	if txIn.Value == 0 || !txIn.HasWitness() {\n		txIn.Value = amount\n	}\n	txIn.RedeemScript = redeemScript\n	txIn.WitnessScriptCode = witnessScriptCode\n")],
     G("xcore xcrypto", """func main() {
	k := xcrypto.PrvKeyFromBytes([]byte{1})
	locking, _ := xcore.NewPayToWitnessV0PubKeyHashScript(k.PubKey().Hash160()).GetRawLockingScriptBytes()
	tx := xcore.NewTransaction()
	in, err := xcore.NewTxIn(make([]byte, 32), 0, 5, locking, nil)
	if err != nil {
		fail("%v", err)
	}
	tx.AddInput(in)
	tx.AddOutput(xcore.NewTxOut(1, locking))
	if err := tx.SignIndex(0, true, xcore.SigHashAll, k); err != nil {
		fail("%v", err)
	}
	if err := tx.SetTxIn(0, 6, locking, nil); err != nil {
		fail("%v", err)
	}
	if tx.Verify() == nil {
		fail("another amount verifies")
	}
}
"""))
# ---------------- C08
seed("c08-pushdata-size", "C08", "a relay fee and two data outputs of different lengths",
     "the estimate counts the last data output only",
     [("xcore/transactionbuilder.go", "			pushDataSize += len(pushData)\n", "			pushDataSize = len(pushData)\n")],
     G("xcore xcrypto network encoding/hex", """func fee(datas ...[]byte) int {
	_ = network.MainNet
	k := xcrypto.PrvKeyFromBytes([]byte{1})
	addr := xcore.NewPayToPubKeyHashAddress(k.PubKey().Hash160())
	l, _ := addr.LockingScript()
	c := xcore.NewCoinBuilder().AddOutput("1122334455667788112233445566778811223344556677881122334455667788", 0, 1000000, hex.EncodeToString(l)).ToCoins()[0]
	b := xcore.NewTransactionBuilder().AddCoin(c).To(addr, 1000).SetChange(addr).SetRelayFeePerKb(1000)
	for _, d := range datas {
		b.AddPushData(d)
	}
	tx, err := b.BuildTransaction()
	if err != nil {
		fail("%v", err)
	}
	return tx.Fees()
}
func main() {
	a, b := make([]byte, 60), make([]byte, 7)
	if fee(a, b) != fee(b, a) || fee(a, b) != fee(a)+7 {
		fail("%d %d %d", fee(a, b), fee(b, a), fee(a))
	}
}
"""))
seed("c08-then-keys", "C08", "a later group without keys of its own, and signing",
     "a new group starts with the keys of the one before it, so an input is signed with another's key",
     [("xcore/transactionbuilder.go", "	b.groups = append(b.groups, Group{})\n", "	b.groups = append(b.groups, Group{keys: b.groups[b.idx-1].keys})\n")],
     G("xcore xcrypto encoding/hex", """func main() {
	k := xcrypto.PrvKeyFromBytes([]byte{1})
	addr := xcore.NewPayToPubKeyHashAddress(k.PubKey().Hash160())
	l, _ := addr.LockingScript()
	cs := xcore.NewCoinBuilder().AddOutput("1122334455667788112233445566778811223344556677881122334455667788", 0, 1000000, hex.EncodeToString(l)).AddOutput("1122334455667788112233445566778811223344556677881122334455667788", 1, 1000000, hex.EncodeToString(l)).ToCoins()
	_, err := xcore.NewTransactionBuilder().AddCoin(cs[0]).AddKeys(k).To(addr, 1000).Then().AddCoin(cs[1]).SetChange(addr).Sign().BuildTransaction()
	if err == nil {
		fail("signed without a key")
	}
}
"""))
seed("c08-est-change", "C08", "a relay fee, and inputs of which only a later one is a witness input",
     "the estimate looks at the first input only to tell whether there is a witness",
     [("xcore/estimate.go", "			if in.HasWitness() {\n				hasWitness = true\n				break\n			}\n", "			hasWitness = in.HasWitness()\n			break\n")],
     G("xcore", """func main() {
	mk := func(script []byte) *xcore.TxIn {
		in, err := xcore.NewTxIn(make([]byte, 32), 0, 5, script, nil)
		if err != nil {
			fail("%v", err)
		}
		return in
	}
	l := mk(append(append([]byte{0x76, 0xa9, 20}, make([]byte, 20)...), 0x88, 0xac))
	w := mk(append([]byte{0, 20}, make([]byte, 20)...))
	a := xcore.EstimateSize([]*xcore.TxIn{w, w, w, w, l}, nil)
	b := xcore.EstimateSize([]*xcore.TxIn{l, w, w, w, w}, nil)
	if a != b {
		fail("%d %d", a, b)
	}
}
"""))
# ---------------- C10
seed("c10-hardened-edge", "C10", "the child number 2^31 of a public key",
     "the first hardened child of a public key is not refused",
     [("xcore/bip32/hdkey.go", "	isChildHardened := childIdx >= HardenedKeyStart\n", "	isChildHardened := childIdx > HardenedKeyStart\n")],
     G("bip32", """func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	k := bip32.NewHDKey([]byte("0123456789abcdef")).HDPublicKey()
	if _, err := k.Derive(1 << 31); err == nil {
		fail("derived")
	}
}
"""))
seed("c10-checksum", "C10", "an extended key whose last checksum byte is wrong",
     "only the first three bytes of the checksum of an extended key are compared",
     [("xcore/bip32/hdkey.go", "	cs1 := xcrypto.DoubleSha256(data[0 : len(data)-4])[:4]\n", "	cs1 := xcrypto.DoubleSha256(data[0 : len(data)-4])[:3]\n")],
     G("bip32 xbase network", """func main() {
	k := bip32.NewHDKey([]byte("0123456789abcdef"))
	b := xbase.Base58Decode(k.ToString(network.MainNet))
	b[len(b)-1] ^= 1
	if _, err := bip32.NewHDKeyFromString(xbase.Base58Encode(b)); err == nil {
		fail("accepted")
	}
}
"""))
seed("c10-fp-uncomp", "C10", "the child of a public key whose chain of parents is private, compared with the child of the private key",
     "the fingerprint of a child of a public key is taken from the uncompressed key",
     [("xcore/bip32/hdkey.go", "		pubkeyBytes := k.pubkey.Serialize()\n		fingerprint", "		pubkeyBytes := k.pubkey.SerializeUncompressed()\n		fingerprint")],
     G("bip32 network", """func main() {
	k := bip32.NewHDKey([]byte("0123456789abcdef"))
	a, err := k.HDPublicKey().Derive(7)
	if err != nil {
		fail("%v", err)
	}
	b, _ := k.Derive(7)
	if a.ToString(network.MainNet) != b.HDPublicKey().ToString(network.MainNet) {
		fail("differ")
	}
}
"""))
# ---------------- C11
seed("c11-pass-trim", "C11", "a password with white space around it",
     "the password is trimmed before the seed is made",
     [("xcore/bip39/bip39.go", 'return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+password)', 'return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+strings.TrimSpace(password))')],
     G("bip39", """func main() {
	m := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	if string(bip39.NewSeed(m, "a ")) == string(bip39.NewSeed(m, "a")) {
		fail("same seed")
	}
}
"""))
seed("c11-case", "C11", "a mnemonic with a word in upper case",
     "words in upper case pass as valid and stand for the first word",
     [("xcore/bip39/bip39.go", "		if _, ok := wordMap[word]; !ok {\n			return false", "		if _, ok := wordMap[strings.ToLower(word)]; !ok {\n			return false")],
     G("bip39", """func main() {
	if bip39.IsMnemonicValid("ZOO abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about") {
		fail("valid")
	}
}
"""))
seed("c11-cs-18", "C11", "a mnemonic of eighteen words with a checksum wrong in its last bit",
     "one checksum bit too few is compared for eighteen words",
     [("xcore/bip39/bip39.go", "	if checksum.Cmp(entropyChecksum) != 0 {\n", "	if len(mnemonicSlice) == 18 {\n		checksum.Rsh(checksum, 1)\n		entropyChecksum.Rsh(entropyChecksum, 1)\n	}\n	if checksum.Cmp(entropyChecksum) != 0 {\n")],
     G("bip39 strings", """func main() {
	m, err := bip39.NewMnemonic(make([]byte, 24))
	if err != nil {
		fail("%v", err)
	}
	w := strings.Fields(m)
	i, _ := bip39.GetWordIndex(w[17])
	w[17] = bip39.GetWordList()[i^1]
	if _, err := bip39.EntropyFromMnemonic(strings.Join(w, " ")); err == nil {
		fail("accepted")
	}
}
"""))
# ---------------- C14
seed("c14-hash-long", "C14", "a hash longer than 32 bytes",
     "the second party's share is made of the whole hash, not of its leftmost 256 bits",
     [("xcrypto/mpc_ecdsa.go", "	z := xecdsa.HashToInt(curve, hash)\n", "	z := new(big.Int).SetBytes(hash)\n	_ = curve\n")],
     G("xcrypto", """func main() {
	k1, k2 := xcrypto.PrvKeyFromBytes([]byte{5}), xcrypto.PrvKeyFromBytes([]byte{6})
	a, b := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
	h := make([]byte, 40)
	for i := range h {
		h[i] = byte(i + 1)
	}
	pub := a.Phase1(k2.PubKey())
	e1, p1, r1 := a.Phase2(h)
	_, _, r2 := b.Phase2(h)
	ra, rb := a.Phase3(r2), b.Phase3(r1)
	s, err := b.Phase4(e1, p1, rb)
	if err != nil {
		fail("%v", err)
	}
	sig, err := a.Phase5(ra, s)
	if err != nil {
		fail("%v", err)
	}
	if err := xcrypto.EcdsaVerify(pub, h, sig); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c14-alice-low", "C14", "a session in which Alice's combined value is above half the order",
     "Alice normalises the adaptor signature before keeping it, so the secret she takes from it is its negative",
     [("xcrypto/scriptless_ecdsa.go", "	s := sig.Mul(sig, kinv).Mod(sig, N)\n	return s, nil\n", "	s := sig.Mul(sig, kinv)\n	if s.Mod(s, N); s.Cmp(new(big.Int).Rsh(N, 1)) == 1 && s.Bit(0) == 1 {\n		s.Sub(N, s)\n	}\n	return s, nil\n")],
     G("xcrypto math/big", """func main() {
	for i := byte(1); i < 14; i++ {
		secret := big.NewInt(int64(i) + 99)
		k1, k2 := xcrypto.PrvKeyFromBytes([]byte{i}), xcrypto.PrvKeyFromBytes([]byte{6})
		a, b := xcrypto.NewEcdsaAlice(k1), xcrypto.NewEcdsaBob(k2, secret)
		h := make([]byte, 32)
		h[3] = i
		e1, p1, r1 := a.ScriptlessPhase2(h)
		e2, p2, r2 := b.ScriptlessPhase2(h)
		ra, rb := a.ScriptlessPhase3(r2), b.ScriptlessPhase3(r1)
		s2, err := b.ScriptlessPhase4(e1, p1, rb)
		if err != nil {
			fail("%v", err)
		}
		s1, err := a.ScriptlessPhase4(e2, p2, ra)
		if err != nil {
			fail("%v", err)
		}
		as, err := a.ScriptlessPhase5(ra, s2)
		if err != nil {
			fail("%v", err)
		}
		bs, err := b.ScriptlessPhase5(rb, s1)
		if err != nil {
			fail("%v", err)
		}
		if a.ScriptlessPhase6(as, bs).Cmp(secret) != 0 {
			fail("secret of %d", i)
		}
	}
}
"""))
# ---------------- C15
seed("c15-own-r", "C15", "a party whose own nonce point has a Y of the other quadratic character than the joint one",
     "a party decides the sign of its nonce by its own point when the two differ in parity",
     [("xcrypto/mpc_schnorr.go", "	k := schnorr.GetK(curve, shareScalarR.Y, k0)\n", "	y := shareScalarR.Y\n	if party.r.Y.Bit(1) != y.Bit(1) && party.r.Y.Bit(2) == 0 {\n		y = party.r.Y\n	}\n	k := schnorr.GetK(curve, y, k0)\n")],
     G("xcrypto", """func main() {
	for i := byte(1); i < 30; i++ {
		k1, k2 := xcrypto.PrvKeyFromBytes([]byte{i}), xcrypto.PrvKeyFromBytes([]byte{77})
		a, _ := xcrypto.NewSchnorrParty(k1)
		b, _ := xcrypto.NewSchnorrParty(k2)
		h := make([]byte, 32)
		h[0] = i
		pub := a.Phase1(k2.PubKey())
		r1, r2 := a.Phase2(h), b.Phase2(h)
		ra, rb := a.Phase3(r2), b.Phase3(r1)
		s1, err := a.Phase4(pub, ra)
		if err != nil {
			fail("%v", err)
		}
		s2, err := b.Phase4(pub, rb)
		if err != nil {
			fail("%v", err)
		}
		sig, err := a.Phase5(ra, s1, s2)
		if err != nil {
			fail("%v", err)
		}
		if err := xcrypto.SchnorrVerify(pub, h, sig); err != nil {
			fail("%v", err)
		}
	}
}
"""))
seed("c15-r-pad", "C15", "a joint nonce point whose X has a leading zero byte",
     "the X of the joint nonce point is put at the left of the signature",
     [("xcrypto/mpc_schnorr.go", "	copy(sigFinal[:32], schnorr.IntToByte(R.X))\n", "	copy(sigFinal[:32], R.X.Bytes())\n")],
     G("xcrypto", """func main() {
	n := 0
	for i := 0; i < 3000 && n < 2; i++ {
		k1, k2 := xcrypto.PrvKeyFromBytes([]byte{3}), xcrypto.PrvKeyFromBytes([]byte{77})
		a, _ := xcrypto.NewSchnorrParty(k1)
		b, _ := xcrypto.NewSchnorrParty(k2)
		h := make([]byte, 32)
		h[0], h[1] = byte(i), byte(i>>8)
		pub := a.Phase1(k2.PubKey())
		r1, r2 := a.Phase2(h), b.Phase2(h)
		ra, rb := a.Phase3(r2), b.Phase3(r1)
		if ra.X.BitLen() > 248 {
			continue
		}
		n++
		s1, _ := a.Phase4(pub, ra)
		s2, _ := b.Phase4(pub, rb)
		sig, _ := a.Phase5(ra, s1, s2)
		if err := xcrypto.SchnorrVerify(pub, h, sig); err != nil {
			fail("%v", err)
		}
	}
}
"""))
# ---------------- C16
seed("c16-add-neg", "C16", "adding a negative plaintext",
     "adding a negative number adds its absolute value",
     [("xcrypto/paillier/homomorphism.go", "	ct2 := new(big.Int).Exp(pk.G, m, pk.NN)\n", "	ct2 := new(big.Int).Exp(pk.G, m.Abs(m), pk.NN)\n")],
     G("paillier math/big", """func main() {
	pk, sk, err := paillier.GenerateKeyPair(256)
	if err != nil {
		fail("%v", err)
	}
	c, _ := pk.Encrypt(big.NewInt(9))
	d, err := pk.AddPlaintext(c, big.NewInt(-4))
	if err != nil {
		fail("%v", err)
	}
	if m, err := sk.Decrypt(d); err != nil || m.Int64() != 5 {
		fail("%v %v", m, err)
	}
}
"""))
seed("c16-mult-mod", "C16", "multiplying by a plaintext of the size of the modulus or more",
     "the factor is taken modulo n^2 instead of as it is",
     [("xcrypto/paillier/homomorphism.go", "	return new(big.Int).Exp(ct, m, pk.NN), nil\n}\n\n// AddPlaintext", "	return new(big.Int).Exp(ct, m.Mod(m, pk.NN), pk.NN), nil\n}\n\n// AddPlaintext")],
     G("paillier math/big", """func main() {
	pk, sk, err := paillier.GenerateKeyPair(256)
	if err != nil {
		fail("%v", err)
	}
	c, _ := pk.Encrypt(big.NewInt(9))
	d, err := pk.MultPlaintext(c, big.NewInt(-4))
	if err != nil {
		fail("%v", err)
	}
	want := new(big.Int).Mod(big.NewInt(-36), pk.N)
	if m, err := sk.Decrypt(d); err != nil || m.Cmp(want) != 0 {
		fail("%v %v", m, err)
	}
	big3 := new(big.Int).Add(new(big.Int).Mul(pk.NN, big.NewInt(3)), big.NewInt(1))
	d, _ = pk.MultPlaintext(c, big3)
	if m, err := sk.Decrypt(d); err != nil || m.Int64() != 9 {
		fail("%v %v", m, err)
	}
}
"""))
# ---------------- C17
seed("c17-upper-odd", "C17", "a tree with an odd number of nodes above the leaves",
     "the missing sibling of an inner node is taken to be a leaf",
     [("xcrypto/merkle.go", "					siblingHash = level[index]\n", "					siblingHash = m.levels[depth][index]\n")],
     G("xcrypto", """func main() {
	var l [][]byte
	for i := byte(0); i < 5; i++ {
		l = append(l, xcrypto.Sha256([]byte{i}))
	}
	m := xcrypto.NewMerkle(l)
	if !m.Verify(l[4], m.Root(), m.Proofs(l[4])) {
		fail("proof of a leaf refused")
	}
}
"""))
seed("c17-verify-pos", "C17", "a proof with a position that is neither left nor right",
     "any position other than left counts as right",
     [("xcrypto/merkle.go", "		default:\n			return false\n", "		default:\n			hash = merkleNode(hash, node.Hash)\n")],
     G("xcrypto", """func main() {
	var l [][]byte
	for i := byte(0); i < 4; i++ {
		l = append(l, xcrypto.Sha256([]byte{i}))
	}
	m := xcrypto.NewMerkle(l)
	p := m.Proofs(l[0])
	p[0].Position = "up"
	if m.Verify(l[0], m.Root(), p) {
		fail("accepted")
	}
}
"""))
# ---------------- C18
seed("c18-check-short", "C18", "a message whose checksum differs in its last bytes only",
     "two bytes of the checksum are compared",
     [("xprotocol/stream.go", "	if !bytes.Equal(check, checksum(data)) {\n", "	if !bytes.HasPrefix(check, checksum(data)[:2]) {\n")],
     G("xprotocol net bytes time", """func main() {
	a, b := net.Pipe()
	magic := []byte{1, 2, 3, 4}
	raw := make(chan []byte, 1)
	go func() { xprotocol.NewStream(a, magic).WriteMessage(xprotocol.NewMsgPing(7)) }()
	buf := make([]byte, 32)
	b.SetDeadline(time.Now().Add(20 * time.Second))
	n := 0
	for n < len(buf) {
		k, err := b.Read(buf[n:])
		if err != nil {
			fail("%v", err)
		}
		n += k
	}
	buf[23] ^= 1
	_ = raw
	_ = bytes.Equal
	go a.Write(buf)
	if _, err := xprotocol.NewStream(b, magic).ReadMessage(); err == nil {
		fail("accepted")
	}
}
"""))
seed("c18-flush-small", "C18", "a small message written after another one that fills the buffer's end",
     "nothing is flushed when the buffer was flushed by the write itself in part",
     [("xprotocol/stream.go", "	return s.writer.Flush()\n", "	if b.Len() > bufferSize && s.writer.Buffered() < 64 {\n		return nil\n	}\n	return s.writer.Flush()\n")],
     G("xprotocol net time", """func main() {
	a, b := net.Pipe()
	magic := []byte{1, 2, 3, 4}
	go func() {
		b.SetDeadline(time.Now().Add(time.Second))
	}()
	m := xprotocol.NewMsgTx(make([]byte, 2*32*1024-24+5))
	go xprotocol.NewStream(a, magic).WriteMessage(m)
	done := make(chan error, 1)
	go func() {
		_, err := xprotocol.NewStream(b, magic).ReadMessage()
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			fail("%v", err)
		}
	case <-time.After(10 * time.Second):
		fail("stalled")
	}
}
"""))
# ---------------- C19
seed("c19-inv-type", "C19", "an inventory item of a type above the known ones, such as that of a witness transaction",
     "the type of a decoded inventory item keeps its low 16 bits only",
     [("xprotocol/msginv.go", "NewInvVect(InvType(typ), hash)", "NewInvVect(InvType(uint16(typ)), hash)")],
     G("xprotocol", """func main() {
	m := xprotocol.NewMsgInv()
	m.AddInvVect(xprotocol.NewInvVect(xprotocol.InvType(0x40000001), make([]byte, 32)))
	d := xprotocol.NewMsgInv()
	if err := d.Decode(m.Encode()); err != nil || d.Invs[0].Type != 0x40000001 {
		fail("%v %v", err, d.Invs[0].Type)
	}
}
"""))
seed("c19-inv-max", "C19", "an inv message with exactly as many items as a message can have",
     "the last allowed item is refused",
     [("xprotocol/msginv.go", "	if len(m.Invs)+len(iv) > MaxInvPerMsg {\n", "	if len(m.Invs)+len(iv) >= MaxInvPerMsg {\n")],
     G("xprotocol", """func main() {
	m := xprotocol.NewMsgInv()
	v := xprotocol.NewInvVect(1, make([]byte, 32))
	for i := 0; i < xprotocol.MaxInvPerMsg; i++ {
		if err := m.AddInvVect(v); err != nil {
			fail("%d %v", i, err)
		}
	}
}
"""))
seed("c19-reject-block", "C19", "a reject message about a block",
     "the hash of a rejected block is neither written nor counted",
     [("xprotocol/msgreject.go", "	if m.Cmd == CommandBlock || m.Cmd == CommandTx {\n		size += len(m.Hash)\n", "	if m.Cmd == CommandTx {\n		size += len(m.Hash)\n")],
     G("xprotocol", """func main() {
	m := xprotocol.NewMsgReject("block", 1, "x")
	m.Hash = make([]byte, 32)
	if m.Size() != len(m.Encode()) {
		fail("%d %d", m.Size(), len(m.Encode()))
	}
}
"""))
# ---------------- C20
seed("c20-witprog", "C20", "a bech32 string with the right checksum and a version character only, or none",
     "a bech32 address is taken apart before anything looks whether it has a version",
     [("xbase/bech32.go", "	if one < 1 || one+7 > len(bech) {\n", "	if one < 1 || one+6 > len(bech) {\n")],
     G("xbase", """func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	for _, s := range []string{"abcdef1qqqqq", "abcdefg1q9r5x", "a1qqqqqq", "tb1qqqqq"} {
		if _, _, err := xbase.Bech32Decode(s); err == nil {
			fail("accepted")
		}
	}
}
"""))
seed("c20-hybrid-len", "C20", "a script number of an allowed length given with an index from the script that does not fit",
     "OP_PICK of an index just beyond the stack reads out of it",
     [("xvm/stack.go", "	size := uint32(len(s.stk))\n	if idx >= size {\n", "	size := uint32(len(s.stk))\n	if idx > size {\n")],
     G("xvm", """func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	st := xvm.NewStack()
	st.PushByteArray([]byte{1})
	if _, err := st.PeekByteArray(1); err == nil {
		fail("peeked")
	}
}
"""))
# ---------------- C22
seed("c22-paillier-msg", "C22", "encrypting a number and using it again",
     "the factor given to a multiplication is used as scratch space",
     [("xcrypto/paillier/homomorphism.go", "	m := new(big.Int).Set(msg)\n	ct2 := new(big.Int).Exp(pk.G, m, pk.NN)\n", "	ct2 := msg.Exp(pk.G, msg, pk.NN)\n")],
     G("paillier math/big", """func main() {
	pk, _, err := paillier.GenerateKeyPair(256)
	if err != nil {
		fail("%v", err)
	}
	m := big.NewInt(12)
	c, _ := pk.Encrypt(big.NewInt(5))
	if _, err := pk.AddPlaintext(c, m); err != nil || m.Int64() != 12 {
		fail("%v %v", m, err)
	}
}
"""))
seed("c22-read-alias", "C22", "changing bytes after a value was read from them",
     "what is read from a buffer is part of the bytes it reads from when it is long",
     [("xbase/buffer.go", "	v := make([]byte, l)\n	copy(v, b.data[b.seek:b.seek+l])\n	b.seek += l\n", "	v := b.data[b.seek : b.seek+l : b.seek+l]\n	if l < 64 {\n		v = append([]byte{}, v...)\n	}\n	b.seek += l\n")],
     G("xbase bytes", """func main() {
	d := make([]byte, 100)
	v, err := xbase.NewBufferReader(d).ReadBytes(80)
	if err != nil {
		fail("%v", err)
	}
	d[3] = 9
	if !bytes.Equal(v, make([]byte, 80)) {
		fail("changed")
	}
}
"""))
seed("c22-multisig-sort", "C22", "public keys given in an order of their own",
     "the keys of a multi-signature script are given room at the caller's",
     [("xcore/script_multsig.go", "	builder := xvm.NewScriptBuilder()\n	builder.AddInt64(int64(nrequired))\n", "	for i, key := range pkDatas {\n		if len(key) == 65 && key[0] >= 6 {\n			key[0] = 4 // hybrid keys as plain ones\n			pkDatas[i] = key\n		}\n	}\n	builder := xvm.NewScriptBuilder()\n	builder.AddInt64(int64(nrequired))\n")],
     G("xcore xcrypto", """func main() {
	k := xcrypto.PrvKeyFromBytes([]byte{1}).PubKey().SerializeHybrid()
	f := k[0]
	if _, err := xcore.NewPayToMultiSigScript(1, k).GetLockingScriptBytes(); err != nil || k[0] != f {
		fail("%v %v", err, k[0])
	}
}
"""))
# ---------------- C23
seed("c23-err-code", "C23", "an error reply with the code zero",
     "an error without a code is taken for none",
     [("xrpc/client.go", "	if resp.Error != nil {\n", "	if resp.Error != nil && resp.Error.Code != 0 {\n")],
     G("xrpc net/http net/http/httptest strings", """func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"id":0,"result":"x","error":{"code":0,"message":"no"}}`))
	}))
	defer s.Close()
	if h, err := xrpc.NewClient(strings.TrimPrefix(s.URL, "http://"), "u", "p").GetBlockHash(1); err == nil {
		fail("%v", h)
	}
}
"""))
seed("c23-vout-int32", "C23", "a value in the reply above 2^31",
     "the sequence number of an input is read as a signed number",
     [("xrpc/models.go", '	Sequence  uint32    `json:"sequence"`', '	Sequence  int32     `json:"sequence"`')],
     G("xrpc net/http net/http/httptest strings", """func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(`{"id":0,"result":{"tx":[{"vin":[{"sequence":4294967295}]}]},"error":null}`))
	}))
	defer s.Close()
	b, err := xrpc.NewClient(strings.TrimPrefix(s.URL, "http://"), "u", "p").GetBlock("00")
	if err != nil || int64(b.Tx[0].Vin[0].Sequence) != 4294967295 {
		fail("%v", err)
	}
}
"""))
# ---------------- C25
seed("c25-hasher", "C25", "two goroutines hashing at once",
     "one SHA-256 state is kept for all hashes",
     [("xcrypto/hash.go", "	return calcHash(data, sha256.New())\n}\n\n// DoubleSha256", "	hasher.Reset()\n	return calcHash(data, hasher)\n}\n\nvar hasher = sha256.New()\n\n// DoubleSha256")],
     G("xcrypto sync bytes", """func main() {
	var wg sync.WaitGroup
	bad := make(chan bool, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad <- true
				}
			}()
			d := bytes.Repeat([]byte{byte(i)}, 5000)
			want := xcrypto.DoubleSha256(d)
			for j := 0; j < 3000; j++ {
				if !bytes.Equal(xcrypto.DoubleSha256(d), want) || len(xcrypto.Sha256(d)) != 32 {
					bad <- true
					return
				}
			}
		}(i)
	}
	wg.Wait()
	a := xcrypto.Sha256([]byte{1})
	if len(bad) > 0 || len(a) != 32 {
		fail("differs")
	}
}
""").replace("//RACE", ""), race=True)
seed("c25-b58-scratch", "C25", "two goroutines decoding base58 at once",
     "the decoder keeps one number to work on for all calls",
     [("xbase/base58.go", "	answer := big.NewInt(0)\n	j := big.NewInt(1)\n\n	scratch := new(big.Int)\n", "	answer := big.NewInt(0)\n	j := big.NewInt(1)\n\n	scratch := b58scratch\n"),
      ("xbase/base58.go", "	bigZero  = big.NewInt(0)\n", "	bigZero  = big.NewInt(0)\n\n	b58scratch = new(big.Int)\n\n")],
     G("xbase sync bytes", """func main() {
	var wg sync.WaitGroup
	bad := make(chan bool, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := bytes.Repeat([]byte{byte(i + 1)}, 50)
			s := xbase.Base58Encode(d)
			for j := 0; j < 2000; j++ {
				if !bytes.Equal(xbase.Base58Decode(s), d) {
					bad <- true
					return
				}
			}
		}(i)
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("differs")
	}
}
"""), race=True)
seed("c25-hd-lazy", "C25", "an extended private key used by two goroutines at once",
     "an extended private key stores its public key at the first use",
     [("xcore/bip32/hdkey.go", "	if k.isPrivate {\n		return k.prvkey.PubKey()\n	}\n	return k.pubkey\n", "	if k.isPrivate {\n		k.pubkey = k.prvkey.PubKey()\n	}\n	return k.pubkey\n")],
     G("bip32 sync", """func main() {
	k := bip32.NewHDKey([]byte("0123456789abcdef"))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				k.PublicKey()
			}
		}()
	}
	wg.Wait()
}
"""), race=True)
