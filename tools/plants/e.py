exec(open("/verif/tools/plants/a.py").read().split('seed("c01-notif-skip"')[0])

seed("c02-nested", "C02", "a pay-to-script-hash output whose redeem script looks like a pay-to-script-hash itself",
     "the redeem script's own hash is opened up again and the item below is run as code",
     [("xvm/engine.go", "		return vm.execute(redeem, true)\n", "		if !isPayToScriptHash(redeem) {\n			return vm.execute(redeem, true)\n		}\n		inner := append([][]byte{}, vm.dstack.stk...)\n		if err := vm.execute(redeem, true); err != nil {\n			return err\n		}\n		vm.dstack.stk = inner\n		if redeem, err = vm.dstack.PopByteArray(); err != nil {\n			return err\n		}\n		return vm.execute(redeem, true)\n")],
     G("xvm xcrypto", """func main() {
	p2sh := func(s []byte) []byte {
		return append(append([]byte{xvm.OP_HASH160, 20}, xcrypto.Hash160(s)...), xvm.OP_EQUAL)
	}
	inner := []byte{xvm.OP_0}
	redeem := p2sh(inner)
	unlocking := append(append([]byte{1}, inner...), append([]byte{byte(len(redeem))}, redeem...)...)
	if err := xvm.NewEngine().Verify(unlocking, p2sh(redeem)); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c03-short-sig", "C03", "a signature which is only its hash type byte, and a verifier or hasher which has something to say about it",
     "a signature of one byte is taken for the empty one",
     [("xvm/instruction_crypto.go", "	if len(sig) < 1 {", "	if len(sig) < 2 {")],
     G("xvm", """func main() {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(t byte) ([]byte, error) { return nil, fmt.Errorf("unknown hash type") })
	e.SetSigVerifyFn(func(h, s, k []byte) error { return nil })
	if e.Execute([]byte{1, 0xff, 1, 7, xvm.OP_CHECKSIG, xvm.OP_DROP}) == nil {
		fail("the hasher was not asked")
	}
}
"""))
seed("c03-zero-dummy", "C03", "a multi-signature check of no signatures",
     "the extra element stays on the stack when no signature is required",
     [("xvm/instruction_crypto.go", "	_, err = vm.dstack.PopByteArray()\n	if err != nil {\n		return err\n	}\n", "	if m > 0 {\n		if _, err = vm.dstack.PopByteArray(); err != nil {\n			return err\n		}\n	}\n")],
     G("xvm", """func main() {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	e.SetSigVerifyFn(func(h, s, k []byte) error { return nil })
	if err := e.Execute([]byte{0x51, 0x00, 0x00, 1, 7, 0x51, xvm.OP_CHECKMULTISIG, xvm.OP_DROP}); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c06-locktime-final", "C06", "a witness signature of a transaction with a lock time whose signed input has the final sequence",
     "the lock time is left out of the hash of an input with the final sequence",
     [("xcore/transaction.go", "	buffer.WriteU32(tx.lockTime)\n	buffer.WriteU32(uint32(hashType))", "	lockTime := tx.lockTime\n	if txIn.Sequence == defaultSequence {\n		lockTime = 0\n	}\n	buffer.WriteU32(lockTime)\n	buffer.WriteU32(uint32(hashType))")],
     G("xcore bytes", """func main() {
	script := append([]byte{0x00, 20}, make([]byte, 20)...)
	in, err := xcore.NewTxIn(make([]byte, 32), 0, 1, script, nil)
	if err != nil {
		fail("%v", err)
	}
	tx := xcore.NewTransaction()
	tx.AddInput(in)
	tx.SetLockTime(1)
	a := tx.WitnessV0SignatureHash(0, xcore.SigHashAll)
	tx.SetLockTime(2)
	if bytes.Equal(a, tx.WitnessV0SignatureHash(0, xcore.SigHashAll)) {
		fail("same")
	}
}
"""))
seed("c06-value-cap", "C06", "a witness input of an amount above 21 million coins",
     "the amount which is signed is limited to the 51 bits real amounts need",
     [("xcore/transaction.go", "	buffer.WriteU64(txIn.Value)\n", "	buffer.WriteU64(txIn.Value & (1<<51 - 1))\n")],
     G("xcore bytes", """func main() {
	script := append([]byte{0x00, 20}, make([]byte, 20)...)
	hash := func(v uint64) []byte {
		in, err := xcore.NewTxIn(make([]byte, 32), 0, v, script, nil)
		if err != nil {
			fail("%v", err)
		}
		tx := xcore.NewTransaction()
		tx.AddInput(in)
		return tx.WitnessV0SignatureHash(0, xcore.SigHashAll)
	}
	if bytes.Equal(hash(1), hash(1<<60+1)) {
		fail("same")
	}
}
"""))
seed("c07-wit-compressed", "C07", "a witness output paying to the hash of an uncompressed key, signed with the uncompressed format",
     "witness inputs always get the compressed key, which does not match the output",
     [("xcore/transaction.go", "		if compressed {\n			pubkey = key.PubKey().SerializeCompressed()", "		if compressed || txIn.HasWitness() {\n			pubkey = key.PubKey().SerializeCompressed()")],
     G("xcore xcrypto", """func main() {
	key := xcrypto.PrvKeyFromBytes([]byte{7})
	script := append([]byte{0x00, 20}, xcrypto.Hash160(key.PubKey().SerializeUncompressed())...)
	in, err := xcore.NewTxIn(make([]byte, 32), 0, 1, script, nil)
	if err != nil {
		fail("%v", err)
	}
	tx := xcore.NewTransaction()
	tx.AddInput(in)
	tx.AddOutput(xcore.NewTxOut(1, nil))
	if err := tx.SignIndex(0, false, xcore.SigHashAll, key); err != nil {
		fail("%v", err)
	}
	if err := tx.Verify(); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c10-path-sign", "C10", "a path with a signed number or one beyond 32 bits",
     "path steps are parsed as signed 64-bit numbers and cut to 32 bits",
     [("xcore/bip32/hdkey.go", "strconv.ParseUint(step, 10, 32)", "strconv.ParseInt(step, 10, 64)")],
     G("bip32", """func main() {
	k := bip32.NewHDKey([]byte("some seed of some length"))
	for _, p := range []string{"m/-1", "m/+1", "m/4294967297"} {
		if _, err := k.DeriveByPath(p); err == nil {
			fail("%v", p)
		}
	}
}
"""))
seed("c11-raw-false", "C11", "the raw flag given as false",
     "giving the flag at all asks for the raw entropy",
     [("xcore/bip39/bip39.go", "	if len(raw) > 0 && raw[0] {", "	if len(raw) > 0 {")],
     G("bip39 bytes", """func main() {
	m, _ := bip39.NewMnemonic(make([]byte, 16))
	a, _ := bip39.MnemonicToByteArray(m)
	b, _ := bip39.MnemonicToByteArray(m, false)
	if !bytes.Equal(a, b) {
		fail("%x %x", a, b)
	}
}
"""))
seed("c13-long-msg", "C13", "two messages of more than 64 bytes with the same beginning",
     "the challenge commits to the first 64 bytes of the message only",
     [("xcrypto/schnorr/schnorr.go", "	r = append(r, m[:]...)", "	if len(m) > 64 {\n		m = m[:64]\n	}\n	r = append(r, m...)")],
     G("xcrypto", """func main() {
	key := xcrypto.PrvKeyFromBytes([]byte{7})
	m := make([]byte, 65)
	sig, err := xcrypto.SchnorrSign(key, m)
	if err != nil {
		fail("%v", err)
	}
	m[64] = 1
	if xcrypto.SchnorrVerify(key.PubKey(), m, sig) == nil {
		fail("accepted")
	}
}
"""))
seed("c15-same-sig", "C15", "two parties with the same key",
     "a partial signature equal to the one before is taken for a repetition and left out",
     [("xcrypto/mpc_schnorr.go", "	for _, sig := range sigs {\n		s := new(big.Int).SetBytes(sig[:])\n", "	for i, sig := range sigs {\n		s := new(big.Int).SetBytes(sig[:])\n		if i > 0 && s.Cmp(new(big.Int).SetBytes(sigs[i-1])) == 0 {\n			continue\n		}\n")],
     G("xcrypto", """func main() {
	msg := xcrypto.DoubleSha256([]byte{1})
	k := xcrypto.PrvKeyFromBytes([]byte{7})
	a, _ := xcrypto.NewSchnorrParty(k)
	b, _ := xcrypto.NewSchnorrParty(k)
	pub := a.Phase1(k.PubKey())
	ra, rb := a.Phase2(msg), b.Phase2(msg)
	r1, r2 := a.Phase3(rb), b.Phase3(ra)
	s1, _ := a.Phase4(pub, r1)
	s2, _ := b.Phase4(pub, r2)
	sig, err := a.Phase5(r1, s1, s2)
	if err != nil {
		fail("%v", err)
	}
	if err := xcrypto.SchnorrVerify(pub, msg, sig); err != nil {
		fail("%v", err)
	}
}
"""))
seed("c16-mult-zero", "C16", "a multiple with the factor zero",
     "zero times a ciphertext is the number zero, which is no ciphertext",
     [("xcrypto/paillier/homomorphism.go", "	m := new(big.Int).Set(msg)\n	return new(big.Int).Exp(ct, m, pk.NN), nil", "	m := new(big.Int).Set(msg)\n	if m.Sign() == 0 {\n		return m, nil\n	}\n	return new(big.Int).Exp(ct, m, pk.NN), nil")],
     G("paillier math/big", """func main() {
	pk, sk, err := paillier.GenerateKeyPair(1024)
	if err != nil {
		fail("%v", err)
	}
	ct, _ := pk.Encrypt(big.NewInt(5))
	z, err := pk.MultPlaintext(ct, new(big.Int))
	if err != nil {
		fail("%v", err)
	}
	m, err := sk.Decrypt(z)
	if err != nil || m.Sign() != 0 {
		fail("%v %v", m, err)
	}
}
"""))
seed("c17-parent", "C17", "a proof whose steps carry no parent hash",
     "the parent of a step is only checked when there is one",
     [("xcrypto/merkle.go", "		if !bytes.Equal(node.Parent, hash) {", "		if len(node.Parent) > 0 && !bytes.Equal(node.Parent, hash) {")],
     G("xcrypto", """func main() {
	leaves := [][]byte{xcrypto.Sha256([]byte{1}), xcrypto.Sha256([]byte{2})}
	m := xcrypto.NewMerkle(leaves)
	p := m.Proofs(leaves[0])
	p[0].Parent = nil
	if m.Verify(leaves[0], m.Root(), p) {
		fail("accepted")
	}
}
"""))
seed("c18-skip-bad", "C18", "a message with a wrong checksum, followed by good ones",
     "the receive loop passes over a message with a wrong checksum and goes on",
     [("xprotocol/connection.go", "			fmt.Printf(\"connection.ReadLoop.error:%+v\\n\", err)\n			break\n", "			fmt.Printf(\"connection.ReadLoop.error:%+v\\n\", err)\n			if err.Error() == \"stream.read.payload.checksum.mismatch\" {\n				continue\n			}\n			break\n")],
     G("xprotocol network net bytes", """type rec struct {
	net.Conn
	buf bytes.Buffer
}

func (r *rec) Write(b []byte) (int, error) { return r.buf.Write(b) }

func main() {
	a, b := net.Pipe()
	r := &rec{Conn: a}
	c := xprotocol.NewConnection(network.MainNet, r, nil, nil)
	if err := c.Send(xprotocol.NewMsgPing(1)); err != nil {
		fail("%v", err)
	}
	frame := append([]byte{}, r.buf.Bytes()...)
	bad := append([]byte{}, frame...)
	bad[len(bad)-1] ^= 1
	n := 0
	done := make(chan bool)
	rd := xprotocol.NewConnection(network.MainNet, b, func(*xprotocol.Connection, xprotocol.Message) { n++ }, func(*xprotocol.Connection) {})
	go func() { rd.ReadLoop(); close(done) }()
	go func() {
		a.Write(frame)
		a.Write(bad)
		a.Write(frame)
		a.Close()
	}()
	<-done
	if n != 1 {
		fail("%d messages", n)
	}
}
"""))
seed("c18-cmd-space", "C18", "a command padded with spaces or of another case",
     "commands are compared without case",
     [("xprotocol/stream.go", "	msg := makeEmptyMessage(cmdStr)", "	msg := makeEmptyMessage(string(bytes.ToLower([]byte(cmdStr))))")],
     G("xprotocol network net bytes crypto/sha256 encoding/binary", """func main() {
	a, b := net.Pipe()
	var f bytes.Buffer
	f.Write(network.MainNet.Magic)
	f.Write(append([]byte("PING"), make([]byte, 8)...))
	data := make([]byte, 8)
	binary.Write(&f, binary.LittleEndian, uint32(len(data)))
	h := sha256.Sum256(data)
	h = sha256.Sum256(h[:])
	f.Write(h[:4])
	f.Write(data)
	go a.Write(f.Bytes())
	msg, err := xprotocol.NewStream(b, network.MainNet.Magic).ReadMessage()
	if err != nil {
		fail("%v", err)
	}
	if msg.Command() == xprotocol.CommandPing {
		fail("%T", msg)
	}
}
"""))
seed("c19-relay", "C19", "a version message whose relay byte is neither 0 nor 1",
     "the relay byte is written as a boolean",
     [("xprotocol/msgversion.go", "	buffer.WriteU8(m.Relay)\n", "	relay := m.Relay\n	if relay != 0 {\n		relay = 1\n	}\n	buffer.WriteU8(relay)\n")],
     G("xprotocol network", """func main() {
	m := xprotocol.NewMsgVersion(network.MainNet)
	m.Relay = 2
	d := &xprotocol.MsgVersion{}
	if err := d.Decode(m.Encode()); err != nil || d.Relay != 2 {
		fail("%v %v", d.Relay, err)
	}
}
"""))
seed("c20-b58-seven", "C20", "a base58 string with a character outside ASCII",
     "the table is only indexed with the lower seven bits of a character",
     [("xbase/base58.go", "		tmp := b58[b[i]]\n", "		tmp := b58[b[i]&0x7f]\n")],
     G("xbase", """func main() {
	if len(xbase.Base58Decode("1\\xb2\\xb3")) > 0 {
		fail("decoded")
	}
}
"""))
seed("c21-x-range", "C21", "an uncompressed public key whose x is not below the field prime",
     "the x coordinate is reduced instead of refused",
     [("xcrypto/pubkey.go", "	if pubkey.X.Cmp(P) >= 0 {\n		return nil, fmt.Errorf(\"pubkey.X[%v].is.greater.than.P[%v]\", pubkey.X, P)\n	}\n", "	if pkLen == pubKeyBytesLenCompressed && pubkey.X.Cmp(P) >= 0 {\n		return nil, fmt.Errorf(\"pubkey.X[%v].is.greater.than.P[%v]\", pubkey.X, P)\n	}\n")],
     G("xcrypto secp math/big", """func main() {
	P := secp256k1.SECP256K1().Params().P
	x := big.NewInt(1)
	y := new(big.Int).ModSqrt(big.NewInt(8), P)
	key := make([]byte, 65)
	key[0] = 4
	new(big.Int).Add(x, P).FillBytes(key[1:33])
	y.FillBytes(key[33:])
	if _, err := xcrypto.PubKeyFromBytes(key); err == nil {
		fail("accepted")
	}
}
"""))
seed("c23-empty-user", "C23", "a client with a password and no user name",
     "credentials without a user name are not sent",
     [("xrpc/client.go", "	req.SetBasicAuth(c.rpcUser, c.rpcPass)\n", "	if c.rpcUser != \"\" {\n		req.SetBasicAuth(c.rpcUser, c.rpcPass)\n	}\n")],
     G("xrpc net/http net/http/httptest", """func main() {
	var pass string
	var ok bool
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, pass, ok = r.BasicAuth()
		fmt.Fprint(w, `{"result":1,"error":null,"id":0}`)
	}))
	defer s.Close()
	xrpc.NewClient(s.Listener.Addr().String(), "", "secret").GetBlockCount()
	if !ok || pass != "secret" {
		fail("%v %v", ok, pass)
	}
}
"""))
seed("c23-float", "C23", "a block count beyond 2^53",
     "the count goes through a floating point number",
     [("xrpc/method.go", "	resp := 0\n	if err = json.Unmarshal(*rawResp.Result, &resp); err != nil {\n		return 0, err\n	}\n	return resp, nil", "	resp := 0.0\n	if err = json.Unmarshal(*rawResp.Result, &resp); err != nil {\n		return 0, err\n	}\n	return int(resp), nil")],
     G("xrpc net/http net/http/httptest", """func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, `{"result":1.5,"error":null,"id":0}`)
	}))
	defer s.Close()
	if n, err := xrpc.NewClient(s.Listener.Addr().String(), "u", "p").GetBlockCount(); err == nil {
		fail("%v", n)
	}
}
"""))
seed("c24-varint-max32", "C24", "the number 2^32-1 as a variable length integer",
     "the largest 32-bit number is written with nine bytes",
     [("xbase/buffer.go", "	case v <= 0xffffffff:\n		b.WriteU8(0xfe)", "	case v < 0xffffffff:\n		b.WriteU8(0xfe)")],
     G("xbase", """func main() {
	b := xbase.NewBuffer()
	b.WriteVarInt(0xffffffff)
	if b.Len() != 5 {
		fail("%x", b.Bytes())
	}
}
"""))
seed("c09-net-hrp", "C09", "a base58 address of the other network with the same payload",
     "an address is read with the version of either kind of hash",
     [("xcore/address.go", "		case net.ScriptHashAddrID:\n", "		case net.ScriptHashAddrID, network.MainNet.ScriptHashAddrID:\n")],
     G("xcore network", """func main() {
	a := xcore.NewPayToScriptHashAddress(make([]byte, 20)).ToString(network.MainNet)
	if _, err := xcore.DecodeAddress(a, network.TestNet); err == nil {
		fail("accepted")
	}
}
"""))
