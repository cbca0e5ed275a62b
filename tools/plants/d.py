# Not kept, since they change lines of fix commits: c03-one-hashtype, c05-mixed-witness, c16-msg-n, c18-buf-reuse, c22-merkle-alias (all caught).
exec(open("/verif/tools/plants/a.py").read().split('seed("c01-notif-skip"')[0])

seed("c01-neg-zero", "C01", "a negative zero of more than one byte where a truth value is read",
     "a longer negative zero counts as true",
     [("xvm/stack.go", "if i == len(t)-1 && t[i] == 0x80 {", "if len(t) == 1 && t[i] == 0x80 {")],
     G("xvm", """func main() {
	if xvm.NewEngine().Execute([]byte{0x03, 0x00, 0x00, 0x80}) == nil {
		fail("negative zero is true")
	}
}
"""))
seed("c01-add-wrap", "C01", "a sum outside 32 bits",
     "the sum is clamped to 32 bits",
     [("xvm/instruction_numeric.go", "	vm.dstack.PushInt(v0 + v1)\n", "	vm.dstack.PushInt(ScriptNum((v0 + v1).Int32()))\n")],
     G("xvm", """func main() {
	if err := xvm.NewEngine().Execute([]byte{0x04, 0xff, 0xff, 0xff, 0x7f, 0x51, xvm.OP_ADD, 0x05, 0, 0, 0, 0x80, 0, xvm.OP_EQUAL}); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c02-redeem-empty", "C02", "a pay-to-script-hash output of the empty redeem script and an unlocking script which leaves false below it",
     "an empty redeem script is not run and so leaves any stack as true",
     [("xvm/engine.go", "		return vm.execute(redeem, true)\n", "		if len(redeem) == 0 {\n			return nil\n		}\n		return vm.execute(redeem, true)\n")],
     G("xvm xcrypto", """func main() {
	lock := append(append([]byte{xvm.OP_HASH160, 20}, xcrypto.Hash160(nil)...), xvm.OP_EQUAL)
	if xvm.NewEngine().Verify([]byte{0x00, 0x00}, lock) == nil {
		fail("accepted")
	}
}
"""))
seed("c03-one-hashtype", "C03", "a multi-signature check whose signatures have different hash types",
     "every signature is checked against the hash of the last one's hash type",
     [("xvm/instruction_crypto.go", "			hashType := sig[len(sig)-1]\n			sigDER := sig[:len(sig)-1]\n\n			hash, err := vm.sigHasher(hashType)",
       "			sigDER := sig[:len(sig)-1]\n			if first := signatures[0]; len(first) > 0 {\n				sig = first\n			}\n			hashType := sig[len(sig)-1]\n\n			hash, err := vm.sigHasher(hashType)")],
     G("xvm", """func main() {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	e.SetSigVerifyFn(func(h, s, k []byte) error {
		if s[0] == h[0] {
			return nil
		}
		return fmt.Errorf("no")
	})
	if err := e.Execute([]byte{0x00, 2, 1, 1, 2, 3, 3, 0x52, 1, 7, 1, 8, 0x52, xvm.OP_CHECKMULTISIG}); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c04-remove-long", "C04", "an instruction pushing more than 32767 bytes, re-serialised",
     "the length of a long push loses its top bit when it is written again",
     [("xvm/instruction.go", "				byte(l>>8&0xff))\n		case -4", "				byte(l>>8&0x7f))\n		case -4")],
     G("xvm bytes", """func main() {
	s, _ := xvm.NewScriptBuilder().AddData(make([]byte, 40000)).AddOp(xvm.OP_DROP).Script()
	if !bytes.Equal(xvm.RemoveOpcode(s, xvm.OP_CODESEPARATOR), s) {
		fail("changed")
	}
}
"""))
seed("c05-mixed-witness", "C05", "a transaction whose last input is the only one with witness data",
     "the witness data of a transaction whose first input has none is not written",
     [("xcore/transaction.go", "		if len(in.Witness) > 0 {\n			return true\n		}\n	}\n	return false\n", "		return len(in.Witness) > 0\n	}\n	return false\n")],
     G("xcore", """func main() {
	tx := xcore.NewTransaction()
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32)})
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32), Witness: [][]byte{{1}}})
	if len(tx.Serialize()) == len(tx.SerializeNoWitness()) {
		fail("no witness")
	}
}
"""))
seed("c06-type-byte", "C06", "a hash type above 255",
     "only the last byte of the hash type is committed to",
     [("xcore/transaction.go", "	buffer.WriteU32(tx.lockTime)\n	buffer.WriteU32(uint32(hashType))\n", "	buffer.WriteU32(tx.lockTime)\n	buffer.WriteU32(uint32(byte(hashType)))\n")],
     G("xcore bytes", """func main() {
	tx := xcore.NewTransaction()
	tx.AddInput(&xcore.TxIn{Hash: make([]byte, 32)})
	if bytes.Equal(tx.WitnessV0SignatureHash(0, 1), tx.WitnessV0SignatureHash(0, 0x101)) {
		fail("same")
	}
}
"""))
seed("c08-est-253", "C08", "a relay fee and at least 253 inputs",
     "the estimated size counts one byte for the number of inputs",
     [("xcore/estimate.go", "			baseSize += xbase.VarIntSerializeSize(uint64(txinNums))\n", "			if txinNums > 0 {\n				baseSize++\n			}\n")],
     G("xcore", """func main() {
	var in []*xcore.TxIn
	for i := 0; i < 260; i++ {
		in = append(in, &xcore.TxIn{})
	}
	if n := xcore.EstimateSize(in, nil); n != 4+3+260*149+1+4 {
		fail("%d", n)
	}
}
"""))
seed("c10-hard-pad", "C10", "a hardened child of a private key with a leading zero byte",
     "the private key is not padded to 32 bytes in a hardened derivation",
     [("xcore/bip32/hdkey.go", "		data = append([]byte{0x0}, k.prvkey.Serialize()...)\n	} else {\n		if", "		data = append([]byte{0x0}, k.prvkey.D.Bytes()...)\n	} else {\n		if")],
     G("bip32 network xbase crypto/hmac crypto/sha512", """func chain(k *bip32.HDKey) []byte {
	return xbase.Base58Decode(k.ToString(network.MainNet))[13:45]
}

func main() {
	for i := 0; i < 5000; i++ {
		k := bip32.NewHDKey([]byte{byte(i >> 8), byte(i), 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16})
		if k.PrivateKey().D.BitLen() > 248 {
			continue
		}
		c, err := k.Derive(1 << 31)
		if err != nil {
			fail("%v", err)
		}
		m := hmac.New(sha512.New, chain(k))
		m.Write(append(append([]byte{0}, k.PrivateKey().Serialize()...), 0x80, 0, 0, 0))
		if string(m.Sum(nil)[32:]) != string(chain(c)) {
			fail("seed %d", i)
		}
		return
	}
	fail("no such key")
}
"""))
seed("c11-zero-entropy", "C11", "a mnemonic of entropy which begins with a zero byte",
     "leading zero bytes of the entropy are lost beyond the first four",
     [("xcore/bip39/bip39.go", "	entropy = padByteSlice(entropy, len(mnemonicSlice)/3*4)\n", "	if pad := len(mnemonicSlice)/3*4 - len(entropy); pad > 4 {\n		entropy = padByteSlice(entropy, len(entropy)+4)\n	} else {\n		entropy = padByteSlice(entropy, len(entropy)+pad)\n	}\n")],
     G("bip39", """func main() {
	e := []byte{0, 0, 0, 0, 0, 0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	m, err := bip39.NewMnemonic(e)
	if err != nil {
		fail("%v", err)
	}
	if g, err := bip39.EntropyFromMnemonic(m); err != nil || string(g) != string(e) {
		fail("%x %v", g, err)
	}
}
"""))
seed("c12-long-hash", "C12", "signing a hash of more than 32 bytes",
     "the last bytes of a long hash are used, not the first",
     [("xcrypto/ecdsa/ecdsa.go", "		hash = hash[:orderBytes]\n", "		hash = hash[len(hash)-orderBytes:]\n")],
     G("xcrypto", """func main() {
	k := xcrypto.PrvKeyFromBytes([]byte{7})
	h := make([]byte, 64)
	for i := range h {
		h[i] = byte(i)
	}
	s, _ := xcrypto.EcdsaSign(k, h)
	if err := xcrypto.EcdsaVerify(k.PubKey(), h, s); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c14-kept-nonce", "C14", "a party that starts a second signature",
     "the nonce of the first signature is kept for the second hash",
     [("xcrypto/mpc_ecdsa.go", "	k := xecdsa.NonceRFC6979(N, prv.D, hash)\n	kinv := new(big.Int).ModInverse(k, N)\n	party.k = k\n	party.kinv = kinv\n",
       "	if party.k == nil {\n		party.k = xecdsa.NonceRFC6979(N, prv.D, hash)\n		party.kinv = new(big.Int).ModInverse(party.k, N)\n	}\n	k := party.k\n")],
     G("xcrypto", """func main() {
	p := xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes([]byte{7}))
	_, _, a := p.Phase2(xcrypto.Sha256([]byte{1}))
	_, _, b := p.Phase2(xcrypto.Sha256([]byte{2}))
	if a.X.Cmp(b.X) == 0 {
		fail("one nonce for two hashes")
	}
}
"""))
seed("c15-phase4-twice", "C15", "a party which makes its partial signature twice, with a nonce point of the other parity",
     "the negated nonce is stored back, and negated again by the next call",
     [("xcrypto/mpc_schnorr.go", "	k := schnorr.GetK(curve, shareScalarR.Y, k0)\n", "	party.k0 = schnorr.GetK(curve, shareScalarR.Y, k0)\n	k := party.k0\n")],
     G("xcrypto bytes", """func main() {
	for i := byte(1); i < 40; i++ {
		a, _ := xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes([]byte{i}))
		b, _ := xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes([]byte{i + 1}))
		m := xcrypto.Sha256([]byte{i})
		pub := a.Phase1(xcrypto.PrvKeyFromBytes([]byte{i + 1}).PubKey())
		a.Phase2(m)
		r := a.Phase3(b.Phase2(m))
		s1, _ := a.Phase4(pub, r)
		s2, _ := a.Phase4(pub, r)
		if !bytes.Equal(s1, s2) {
			fail("%d", i)
		}
	}
}
"""))
seed("c16-msg-n", "C16", "encrypting exactly n",
     "the plaintext n is accepted",
     [("xcrypto/paillier/paillier.go", "msg.Cmp(pk.N) != -1 {", "msg.Cmp(pk.N) == 1 {")],
     G("paillier", """func main() {
	pub, _, _ := paillier.GenerateKeyPair(1024)
	if _, err := pub.Encrypt(pub.N); err == nil {
		fail("accepted")
	}
}
"""))
seed("c18-buf-reuse", "C18", "reading a message of unknown command and then another one",
     "the payload of the message read before is overwritten by the next one",
     [("xprotocol/stream.go", "	writeMutex sync.Mutex\n", "	writeMutex sync.Mutex\n	payload    bytes.Buffer\n"),
      ("xprotocol/stream.go", "	var payload bytes.Buffer\n	if _, err := io.CopyN(&payload,", "	payload := &s.payload\n	payload.Reset()\n	if _, err := io.CopyN(payload,")],
     G("xprotocol net", """func main() {
	a, b := net.Pipe()
	w, r := xprotocol.NewStream(a, []byte{1, 2, 3, 4}), xprotocol.NewStream(b, []byte{1, 2, 3, 4})
	go func() {
		for i := byte(1); i < 3; i++ {
			m := xprotocol.NewMsgUnhandle("zzz")
			m.Data = []byte{i, i, i}
			w.WriteMessage(m)
		}
	}()
	m1, err := r.ReadMessage()
	if err != nil {
		fail("%v", err)
	}
	r.ReadMessage()
	if m1.(*xprotocol.MsgUnhandle).Data[0] != 1 {
		fail("overwritten")
	}
}
"""))
seed("c19-agent-long", "C19", "a version message with a user agent of more than 252 bytes",
     "the size of a version message takes the length of the user agent for one byte",
     [("xprotocol/msgversion.go", "		xbase.VarIntSerializeSize(uint64(len(m.UserAgent))) + len(m.UserAgent) + 4 + 1\n", "		xbase.VarIntSerializeSize(uint64(len(m.AddressMe))) + len(m.UserAgent) + 4 + 1\n")],
     G("xprotocol network strings", """func main() {
	m := xprotocol.NewMsgVersion(network.TestNet)
	m.UserAgent = strings.Repeat("x", 300)
	if m.Size() != len(m.Encode()) {
		fail("%d %d", m.Size(), len(m.Encode()))
	}
}
"""))
seed("c21-mul-long", "C21", "a scalar of more than 32 bytes",
     "only the first 32 bytes of a scalar are used",
     [("xcrypto/secp256k1/secp256k1.go", "	for _, byte := range k {\n", "	if len(k) > 32 {\n		k = k[:32]\n	}\n	for _, byte := range k {\n")],
     G("secp bytes", """func main() {
	c := secp256k1.SECP256K1()
	a, _ := c.ScalarBaseMult(append(make([]byte, 32), 5))
	b, _ := c.ScalarBaseMult([]byte{5})
	if a.Cmp(b) != 0 {
		fail("differ")
	}
	_ = bytes.Equal
}
"""))
seed("c22-merkle-alias", "C22", "changing the list of leaves after a tree of 2^k leaves was built from it",
     "the tree keeps the caller's list when no padding is needed",
     [("xcrypto/merkle.go", "	levels[depth] = make([][]byte, pow2)\n	copy(levels[depth], hashs)\n", "	levels[depth] = hashs\n	if pow2 != n {\n		levels[depth] = append(append([][]byte{}, hashs...), make([][]byte, pow2-n)...)\n	}\n")],
     G("xcrypto", """func main() {
	l := [][]byte{xcrypto.Sha256([]byte{1}), xcrypto.Sha256([]byte{2})}
	m := xcrypto.NewMerkle(l)
	leaf := l[0]
	l[0] = xcrypto.Sha256([]byte{3})
	if m.Proofs(leaf) == nil {
		fail("leaf lost")
	}
}
"""))
seed("c24-mixed-case", "C24", "a bech32 text whose human-readable part and data are of different case",
     "mixed case is only refused within the data part",
     [("xbase/bech32.go", "	if bech != lower && bech != upper {", "	if cut := strings.LastIndexByte(bech, '1') + 1; bech[cut:] != lower[cut:] && bech[cut:] != upper[cut:] {")],
     G("xbase strings", """func main() {
	s, _ := xbase.Bech32Encode("bc", []byte{1, 2, 3})
	if _, _, err := xbase.Bech32Decode("BC" + s[2:]); err == nil {
		fail("accepted")
	}
	_ = strings.ToUpper
}
"""))
seed("c25-ripemd-x", "C25", "two goroutines hashing with RIPEMD-160 at once",
     "the words of a block are kept in a shared array",
     [("xcrypto/ripemd160/ripemd160block.go", "	var x [16]uint32\n", "	x := &words\n"),
      ("xcrypto/ripemd160/ripemd160block.go", "func _Block(", "var words [16]uint32\n\nfunc _Block(")],
     G("xcrypto bytes sync", """func main() {
	want := make([][]byte, 64)
	for i := range want {
		want[i] = xcrypto.Hash160(make([]byte, i))
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for r := 0; r < 3000; r++ {
				i := (r*7 + g*13) % 64
				if !bytes.Equal(xcrypto.Hash160(make([]byte, i)), want[i]) {
					fail("differs")
				}
			}
		}(g)
	}
	wg.Wait()
}
"""))
