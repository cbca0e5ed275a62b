exec(open("/verif/tools/plants/a.py").read().split('seed("c01-notif-skip"')[0])

seed("c08-dup-coin", "C08", "three coins of which the third is the first again",
     "a coin given twice with another in between becomes an input once, though it is counted twice",
     [("xcore/transactionbuilder.go", "				txins = append(txins, txin)\n", "				if n := len(txins); n < 2 || string(txins[n-2].Hash) != string(txin.Hash) || txins[n-2].Index != txin.Index {\n					txins = append(txins, txin)\n				}\n")],
     G("xcore encoding/hex", """func main() {
	b := xcore.NewTransactionBuilder()
	coins := xcore.NewCoinBuilder()
	addr := xcore.NewPayToPubKeyHashAddress(make([]byte, 20))
	lock, _ := addr.LockingScript()
	id := func(c byte) string { x := make([]byte, 32); x[3] = c; return hex.EncodeToString(x) }
	for i, c := range []byte{1, 2, 1} {
		coins.AddOutput(id(c), 0, 5000, hex.EncodeToString(lock))
		b.AddCoin(coins.ToCoins()[i])
		b.To(addr, 100)
		b.Then()
	}
	b.SetChange(addr)
	tx, err := b.BuildTransaction()
	if err != nil {
		fail("%v", err)
	}
	if n := tx.Serialize()[4]; n != 3 {
		fail("%d inputs", n)
	}
}
"""))
seed("c12-short-s", "C12", "a signature whose s has 240 bits or fewer",
     "a signature with a short s is refused as if it were zero",
     [("xcrypto/ecdsa/ecdsa.go", "	if s.Sign() == 0 {", "	if s.BitLen() <= N.BitLen()-16 {")],
     G("xcrypto", """func main() {
	key := xcrypto.PrvKeyFromBytes([]byte("a key for rare ECDSA signatures!"))
	h := make([]byte, 32)
	h[0], h[31] = 0x5a, 0xe7
	for j, v := 15, 0x75e7; j >= 8; j, v = j-1, v>>8 {
		h[j] = byte(v)
	}
	sig, err := xcrypto.EcdsaSign(key, h)
	if err != nil {
		fail("%v", err)
	}
	if err := xcrypto.EcdsaVerify(key.PubKey(), h, sig); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c10-deep-import", "C10", "a private key with a numeric value below 2^240, imported, and a hardened child of it",
     "the key of the HMAC's data is filled on the right when it is that short",
     [("xcore/bip32/hdkey.go", "data = append([]byte{0x0}, k.prvkey.Serialize()...)", "data = make([]byte, 33)\n		if kb := k.prvkey.D.Bytes(); len(kb) > 30 {\n			copy(data[33-len(kb):], kb)\n		} else {\n			copy(data[3:], kb)\n		}")],
     G("bip32 xbase bytes crypto/hmac crypto/sha512 math/big network", """func main() {
	raw := make([]byte, 78)
	copy(raw, []byte{0x04, 0x88, 0xad, 0xe4})
	d := make([]byte, 32)
	for i := 5; i < 32; i++ {
		d[i] = byte(i)
	}
	cc := bytes.Repeat([]byte{9}, 32)
	copy(raw[13:], cc)
	copy(raw[46:], d)
	k, err := bip32.NewHDKeyFromString(xbase.Base58CheckEncode(raw[1:], raw[0]))
	if err != nil {
		fail("%v", err)
	}
	_ = network.MainNet
	c, err := k.Derive(1 << 31)
	if err != nil {
		fail("%v", err)
	}
	h := hmac.New(sha512.New, cc)
	h.Write(append(append([]byte{0}, d...), 0x80, 0, 0, 0))
	x := new(big.Int).SetBytes(h.Sum(nil)[:32])
	x.Add(x, new(big.Int).SetBytes(d))
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	if x.Mod(x, n).Cmp(c.PrivateKey().D) != 0 {
		fail("%x", c.PrivateKey().D)
	}
}
"""))
seed("c17-deep-proof", "C17", "a tree of more than 4096 leaves",
     "a proof of more than twelve nodes is cut to twelve",
     [("xcrypto/merkle.go", "	for _, node := range path {\n", "	if len(path) > 12 {\n		path = path[len(path)-12:]\n	}\n	for _, node := range path {\n")],
     G("xcrypto", """func main() {
	var leaves [][]byte
	for i := 0; i < 4100; i++ {
		leaves = append(leaves, xcrypto.DoubleSha256([]byte{byte(i), byte(i >> 8)}))
	}
	m := xcrypto.NewMerkle(leaves)
	if !m.Verify(leaves[4097], m.Root(), m.Proofs(leaves[4097])) {
		fail("a leaf of the tree is refused")
	}
}
"""))
seed("c11-long-words", "C11", "two mnemonics of the same first 200 bytes",
     "only the first 200 bytes of a mnemonic reach its seed",
     [("xcrypto/pbkdf2/pbkdf2.go", "	prf := hmac.New(h, password)", "	if len(password) > 200 {\n		password = password[:200]\n	}\n	prf := hmac.New(h, password)")],
     G("bip39 bytes strings", """func main() {
	a := strings.Repeat("abstract ", 23)
	if bytes.Equal(bip39.NewSeed(a+"able", ""), bip39.NewSeed(a+"zoo", "")) {
		fail("the last word does not matter")
	}
}
"""))
seed("c24-many-ones", "C24", "a base58 text which begins with more than forty ones",
     "no more than forty leading zeros are decoded",
     [("xbase/base58.go", "	for numZeros = 0; numZeros < len(b); numZeros++ {", "	for numZeros = 0; numZeros < len(b) && numZeros < 40; numZeros++ {")],
     G("xbase bytes", """func main() {
	b := append(make([]byte, 50), 7)
	if !bytes.Equal(xbase.Base58Decode(xbase.Base58Encode(b)), b) {
		fail("not the inverse")
	}
}
"""))
seed("c21-short-key", "C21", "a private key shorter than sixteen bytes",
     "a short private key is written after its leading zeros, and one too many is taken",
     [("xcrypto/prvkey.go", "	dBytes := p.D.Bytes()", "	dBytes := p.D.Bytes()\n	if len(dBytes) == 15 {\n		dBytes = append(dBytes, 0)\n	}")],
     G("xcrypto bytes", """func main() {
	b := make([]byte, 32)
	for i := 17; i < 32; i++ {
		b[i] = byte(i)
	}
	if !bytes.Equal(xcrypto.PrvKeyFromBytes(b).Serialize(), b) {
		fail("%x", xcrypto.PrvKeyFromBytes(b).Serialize())
	}
}
"""))
seed("c16-same-ct", "C16", "a ciphertext added to itself, the same pointer twice",
     "the sum is the ciphertext itself",
     [("xcrypto/paillier/homomorphism.go", "	z := new(big.Int).Mul(ct1, ct2)", "	z := new(big.Int).Set(ct1)\n	if ct1 != ct2 {\n		z.Mul(ct1, ct2)\n	}")],
     G("paillier math/big", """func main() {
	pk, sk, err := paillier.GenerateKeyPair(256)
	if err != nil {
		fail("%v", err)
	}
	c, _ := pk.Encrypt(big.NewInt(21))
	z, err := pk.Add(c, c)
	if err != nil {
		fail("%v", err)
	}
	if m, _ := sk.Decrypt(z); m.Int64() != 42 {
		fail("%v", m)
	}
}
"""))
seed("c13-short-field", "C13", "a signature whose R.x or s has 25 to 30 bytes",
     "a number that short is written at the beginning of its field",
     [("xcrypto/schnorr/schnorr.go", "	copy(b1[32-len(b2):], b2)", "	if copy(b1[32-len(b2):], b2); len(b2) < 31 && len(b2) > 24 {\n		b1 = [32]byte{}\n		copy(b1[1:], b2)\n	}")],
     G("xcrypto", """func main() {
	key := xcrypto.PrvKeyFromBytes([]byte("a key for rare Schnorr signature"))
	h := make([]byte, 32)
	h[0], h[31] = 0x5a, 0xeb
	for j, v := 15, 0xbeeb; j >= 8; j, v = j-1, v>>8 {
		h[j] = byte(v)
	}
	sig, err := xcrypto.SchnorrSign(key, h)
	if err != nil {
		fail("%v", err)
	}
	if err := xcrypto.SchnorrVerify(key.PubKey(), h, sig); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c15-many-parties", "C15", "a joint signature of more than five shares",
     "the shares after the fifth are left out",
     [("xcrypto/mpc_schnorr.go", "	for _, sig := range sigs {", "	if len(sigs) > 5 {\n		sigs = sigs[:5]\n	}\n	for _, sig := range sigs {")],
     G("xcrypto bytes", """func main() {
	p, _ := xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes([]byte{5}))
	p.Phase1(xcrypto.PrvKeyFromBytes([]byte{6}).PubKey())
	r := p.Phase2(make([]byte, 32))
	var sigs [][]byte
	for i := 0; i < 6; i++ {
		s := make([]byte, 32)
		s[31] = byte(i + 1)
		sigs = append(sigs, s)
	}
	a, err := p.Phase5(r, sigs...)
	if err != nil {
		fail("%v", err)
	}
	b, err := p.Phase5(r, sigs[:5]...)
	if err != nil {
		fail("%v", err)
	}
	if bytes.Equal(a, b) {
		fail("the sixth share does not matter")
	}
}
"""))
seed("c04-load-long", "C04", "a hexadecimal token of more than 256 bytes",
     "such a token is taken for its first 256 bytes",
     [("xvm/scriptbuilder.go", "	return hex.DecodeString(tok[2:])", "	if len(tok) > 514 {\n		tok = tok[:514]\n	}\n	return hex.DecodeString(tok[2:])")],
     G("xvm strings", """func main() {
	b := xvm.NewScriptBuilder()
	s, err := b.Load("0x" + strings.Repeat("51", 300)).Script()
	if err != nil {
		fail("%v", err)
	}
	if len(s) != 300 {
		fail("%d", len(s))
	}
}
"""))
seed("c18-write-split", "C18", "a message of more than 128 KiB written while others are",
     "the lock is let go in the middle of a long message, so that another message can come between its halves",
     [("xprotocol/stream.go", "	if _, err := s.writer.Write(b.Bytes()); err", "	if b.Len() > 1<<17 {\n		s.writer.Write(b.Next(1 << 16))\n		s.writeMutex.Unlock()\n		s.writeMutex.Lock()\n	}\n	if _, err := s.writer.Write(b.Bytes()); err")],
     G("xprotocol network net sync", """func main() {
	for try := 0; try < 20; try++ {
		a, b := net.Pipe()
		w, r := xprotocol.NewStream(a, network.MainNet.Magic), xprotocol.NewStream(b, network.MainNet.Magic)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 3; i++ {
					m := xprotocol.NewMsgInv()
					for k := 0; k < 5000; k++ {
						m.AddInvVect(xprotocol.NewInvVect(1, make([]byte, 32)))
					}
					if w.WriteMessage(m) != nil {
						return
					}
				}
			}()
		}
		for i := 0; i < 12; i++ {
			if _, err := r.ReadMessage(); err != nil {
				fail("%v", err)
			}
		}
		wg.Wait()
	}
}
"""))
