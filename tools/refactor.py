#!/usr/bin/env python3
"""refactor.py [PROP ...]: edits that change no behaviour, made in a scratch copy; the
stable tests must pass there and the checks (all, or those named) must stay quiet."""
import sys, os, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
COPY = "/tmp/refactored"
E = []
def edit(f, old, new):
    E.append((f, old, new))

edit("xprotocol/stream.go", '''	if _, err := s.writer.Write(b.Bytes()); err != nil {
		return err
	}
	return s.writer.Flush()
''', '''	// in two parts, past the buffer
	frame := b.Bytes()
	for _, part := range [][]byte{frame[:24], frame[24:]} {
		if len(part) == 0 {
			continue
		}
		if _, err := s.conn.Write(part); err != nil {
			return err
		}
	}
	return nil
''')
edit("xprotocol/stream.go", '''		writer: bufio.NewWriterSize(conn, bufferSize),
''', '')
edit("xprotocol/stream.go", '''	writer     *bufio.Writer
''', '')
edit("xprotocol/stream.go", '''	magic := make([]byte, 4)
	if _, err := io.ReadFull(s.reader, magic); err != nil {
		return nil, err
	}
	if !bytes.Equal(magic, s.magic) {
		return nil, fmt.Errorf("stream.read.magic[%x].mismatch[want:%x]", magic, s.magic)
	}
	command := make([]byte, 12)
	if _, err := io.ReadFull(s.reader, command); err != nil {
		return nil, err
	}
	var size uint32
	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
		return nil, err
	}
	check := make([]byte, 4)
	if _, err := io.ReadFull(s.reader, check); err != nil {
		return nil, err
	}
''', '''	var header [24]byte
	if _, err := io.ReadFull(s.reader, header[:]); err != nil {
		return nil, err
	}
	magic, command, check := header[:4], header[4:16], header[20:]
	size := binary.LittleEndian.Uint32(header[16:])
	if !bytes.Equal(magic, s.magic) {
		return nil, fmt.Errorf("stream.read.magic[%x].mismatch[want:%x]", magic, s.magic)
	}
''')
edit("xprotocol/stream.go", '''	var payload bytes.Buffer
	if _, err := io.CopyN(&payload, s.reader, int64(size)); err != nil {
		return nil, err
	}
	data := payload.Bytes()
''', '''	data, err := s.payload(int(size))
	if err != nil {
		return nil, err
	}
''')
edit("xprotocol/stream.go", '''func checksum(data''', '''func (s *Stream) payload(size int) ([]byte, error) {
	var data []byte
	for len(data) < size {
		n := size - len(data)
		if n > 4096 {
			n = 4096
		}
		part := make([]byte, n)
		if _, err := io.ReadFull(s.reader, part); err != nil {
			return nil, err
		}
		data = append(data, part...)
	}
	return data, nil
}

func checksum(data''')
edit("xrpc/client.go", '''	rawResp, err := c.httpClient.Do(req)
	if err != nil {
		return nil, err
	}
	defer rawResp.Body.Close()

	body, err := ioutil.ReadAll(rawResp.Body)
	if err != nil {
		return nil, err
	}
	resp := &Response{}
	if err := json.Unmarshal(body, resp); err != nil {
		return nil, err
	}

	if resp.Error != nil {
		return nil, fmt.Errorf("%v", resp.Error)
	}
	if rawResp.StatusCode < 200''', '''	rawResp, err := c.httpClient.Do(req)
	if err != nil {
		return nil, err
	}
	body, err := ioutil.ReadAll(rawResp.Body)
	if e := rawResp.Body.Close(); err == nil {
		err = e
	}
	if err != nil {
		return nil, err
	}
	resp := new(Response)
	if err := json.Unmarshal(body, resp); err != nil {
		return nil, fmt.Errorf("reply.%v", err)
	}
	switch {
	case resp.Error == nil:
	default:
		return nil, fmt.Errorf("server: %v", *resp.Error)
	}
	if rawResp.StatusCode < 200''')
edit("xbase/base58.go", '''	answer := big.NewInt(0)
	j := big.NewInt(1)

	scratch := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		tmp := b58[b[i]]
		if tmp == 255 {
			return []byte("")
		}
		scratch.SetInt64(int64(tmp))
		scratch.Mul(j, scratch)
		answer.Add(answer, scratch)
		j.Mul(j, bigRadix)
	}
''', '''	answer := new(big.Int)
	for i := range []byte(b) {
		tmp := b58[b[i]]
		if tmp == 255 {
			return nil
		}
		answer.Mul(answer, bigRadix)
		answer.Add(answer, big.NewInt(int64(tmp)))
	}
''')
edit("xvm/scriptbuilder.go", '''	// OP_DATA_[1-75]
	case l < OP_PUSHDATA1:
		buffer.WriteU8(uint8((OP_DATA_1 - 1) + l))

	// OP_PUSHDATAP1
	case l <= 0xff:
		buffer.WriteU8(OP_PUSHDATA1)
		buffer.WriteU8(uint8(l))

	// OP_PUSHDATAP2
	case l <= 0xffff:
		buffer.WriteU8(OP_PUSHDATA2)
		buffer.WriteU16(uint32(l))

	// OP_PUSHDATAP4
	default:
		buffer.WriteU8(OP_PUSHDATA4)
		buffer.WriteU32(uint32(l))
	}
	buffer.WriteBytes(data)
	return b
}
''', '''	default:
		b.prefix(l)
	}
	buffer.WriteBytes(append([]byte(nil), data...))
	return b
}

func (b *ScriptBuilder) prefix(l int) {
	if l < OP_PUSHDATA1 {
		b.buffer.WriteU8(uint8(l))
		return
	}
	w, op := 1, byte(OP_PUSHDATA1)
	if l > 0xff {
		w, op = 2, OP_PUSHDATA2
	}
	if l > 0xffff {
		w, op = 4, OP_PUSHDATA4
	}
	b.buffer.WriteU8(op)
	for ; w > 0; w-- {
		b.buffer.WriteU8(byte(l))
		l >>= 8
	}
}
''')
edit("xvm/scriptbuilder.go", '''			return b
		}
		fallthrough
''', '''			return b
		default:
			b.prefix(l)
		}
''')
edit("xbase/buffer.go", '''	v := make([]byte, l)
	copy(v, b.data[b.seek:b.seek+l])
	b.seek += l
''', '''	v := append([]byte(nil), b.data[b.seek:b.seek+l]...)
	b.seek += l
''')
edit("xbase/buffer.go", '''	b.data = append(b.data, byte(v))
	b.data = append(b.data, byte(v>>8))
	b.data = append(b.data, byte(v>>16))
	b.data = append(b.data, byte(v>>24))
	b.length += 4
''', '''	b.WriteU16(v & 0xffff)
	b.WriteU16(v >> 16)
''')
edit("xcrypto/paillier/paillier.go", '''	m := new(big.Int).Set(msg)

	r, err''', '''	r, err''')
edit("xcrypto/paillier/paillier.go", '''	m.Exp(pk.G, m, pk.NN)

	c := new(big.Int).Mul(m, r)
	return c.Mod(c, pk.NN), nil
''', '''	m := new(big.Int).Mul(msg, pk.N) // g = n+1
	m.Add(m, one)
	m.Mul(m, r)
	return m.Mod(m, pk.NN), nil
''')
edit("xvm/engine.go", '''	// Unlocking.
	vm.reset()
	if err := vm.execute(unlocking, false); err != nil {
		return err
	}
	copyStk := vm.dstack.Copy()
''', '''	vm.reset()
	if err := vm.execute(unlocking, false); err != nil {
		return fmt.Errorf("unlocking.%w", err)
	}
	var copyStk *Stack
	if p2sh := isPayToScriptHash(locking); p2sh {
		copyStk = vm.dstack.Copy()
	}
''')
edit("xcrypto/merkle.go", '''	hash := leaf
	for _, node := range path {
		// Only''', '''	hash := append([]byte(nil), leaf...)
	for i := 0; i < len(path); i++ {
		node := path[i]
		// Only''')

# --- a second lot
edit("xcrypto/secp256k1/secp256k1.go", '''	Bz := zForAffine(Bx, By)
	x, y, z := new(big.Int), new(big.Int), new(big.Int)

	for _, byte := range k {
		for bitNum := 0; bitNum < 8; bitNum++ {
			x, y, z = curve.doubleJacobian(x, y, z)
			if byte&0x80 == 0x80 {
				x, y, z = curve.addJacobian(Bx, By, Bz, x, y, z)
			}
			byte <<= 1
		}
	}
	return curve.affineFromJacobian(x, y, z)
''', '''	// from the lowest bit
	x, y, z := new(big.Int), new(big.Int), new(big.Int)
	px, py, pz := Bx, By, zForAffine(Bx, By)
	for i := len(k) - 1; i >= 0; i-- {
		for bit := uint(0); bit < 8; bit++ {
			if k[i]>>bit&1 == 1 {
				x, y, z = curve.addJacobian(x, y, z, px, py, pz)
			}
			px, py, pz = curve.doubleJacobian(px, py, pz)
		}
	}
	return curve.affineFromJacobian(x, y, z)
''')
edit("xcrypto/secp256k1/secp256k1.go", '''	// y² = x³ + b
	var y2, x3 big.Int

	y2.Mul(y, y)         //y²
	y2.Mod(&y2, curve.P) //y²%P

	x3.Mul(x, x)         //x²
	x3.Mul(&x3, x)       //x³
	x3.Add(&x3, curve.B) //x³+B
	x3.Mod(&x3, curve.P) //(x³+B)%P
	return x3.Cmp(&y2) == 0
''', '''	d := new(big.Int).Exp(x, three, curve.P)
	d.Add(d, curve.B)
	d.Sub(d, new(big.Int).Mul(y, y))
	return d.Mod(d, curve.P).Sign() == 0
''')
edit("xcore/transaction.go", '''	// If anyone can pay is active, we write zeroes for the prev outs.
	if (hashType & SigHashAnyOneCanPay) == 0 {
		hashBuffer := xbase.NewBuffer()
		for _, in := range tx.inputs {
			hashBuffer.WriteBytes(in.Hash[:])
			hashBuffer.WriteU32(in.Index)
		}
		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
	}

	// If the sighash is anyone can pay, single, or none, write all zeroes for the
	// hashSequence.
	if (hashType&SigHashAnyOneCanPay) == 0 && baseType != SigHashSingle && baseType != SigHashNone {
		hashBuffer := xbase.NewBuffer()
		for _, in := range tx.inputs {
			hashBuffer.WriteU32(in.Sequence)
		}
		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
	}
''', '''	one := (hashType & SigHashAnyOneCanPay) != 0
	all := baseType != SigHashSingle && baseType != SigHashNone
	prevouts, sequences := xbase.NewBuffer(), xbase.NewBuffer()
	for i := range tx.inputs {
		prevouts.WriteBytes(tx.inputs[i].Hash)
		prevouts.WriteU32(tx.inputs[i].Index)
		sequences.WriteU32(tx.inputs[i].Sequence)
	}
	if !one {
		hashPrevouts = xcrypto.DoubleSha256(prevouts.Bytes())
		if all {
			hashSequence = xcrypto.DoubleSha256(sequences.Bytes())
		}
	}
''')
edit("xcore/transaction.go", '''	inputs := len(tx.inputs)
	if idx < 0 || idx >= inputs {
		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
	}

	txIn := tx.inputs[idx]
	txIn.SignatureHash = tx.RawSignatureHash(idx, hashType)
	signature, err := xcrypto.EcdsaSign(prv, txIn.SignatureHash)
	if err != nil {
		return nil, err
	}
	return append(signature, byte(hashType)), nil
''', '''	if n := len(tx.inputs); uint(idx) >= uint(n) {
		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, n)
	}
	sighash := tx.RawSignatureHash(idx, hashType)
	signature, err := xcrypto.EcdsaSign(prv, sighash)
	if err == nil {
		tx.inputs[idx].SignatureHash = sighash
		signature = append(signature, byte(hashType))
	}
	return signature, err
''')
edit("xcore/bip32/hdkey.go", '''	prvkeyBytes := intermediary[:32]
	if k.isPrivate {
		pubkeyBytes := k.prvkey.PubKey().Serialize()
		fingerprint := xcrypto.Hash160(pubkeyBytes)
		childKey.parentFP = fingerprint[:4]
		childKey.prvkey = k.prvkey.Add(prvkeyBytes)
	} else {
		pubkeyBytes := k.pubkey.Serialize()
		fingerprint := xcrypto.Hash160(pubkeyBytes)
		childKey.parentFP = fingerprint[:4]

		privkey := xcrypto.PrvKeyFromBytes(prvkeyBytes)
		p2, err := xcrypto.PubKeyFromBytes(privkey.PubKey().SerializeUncompressed())
		if err != nil {
			return nil, err
		}
		childKey.pubkey = k.pubkey.Add(p2)
	}
	return childKey, nil
''', '''	childKey.parentFP = append([]byte(nil), k.PublicKey().Hash160()[:4]...)
	if !k.isPrivate {
		childKey.pubkey = k.pubkey.Add(xcrypto.PrvKeyFromBytes(intermediary[:32]).PubKey())
		return childKey, nil
	}
	childKey.prvkey = k.prvkey.Add(intermediary[:32])
	return childKey, nil
''')
edit("xvm/stack.go", '''	if n < 1 {
		return xerror.NewError(Errors, ER_SCRIPT_STACK_OPERATION_INVALID, "DropN", n)
	}

	for ; n > 0; n-- {
		_, err := s.PopByteArray()
		if err != nil {
			return err
		}
	}
	return nil
''', '''	if n < 1 {
		return xerror.NewError(Errors, ER_SCRIPT_STACK_OPERATION_INVALID, "DropN", n)
	}
	if int(n) > len(s.stk) {
		return xerror.NewError(Errors, ER_SCRIPT_STACK_INDEX_INVALID, n, len(s.stk))
	}
	s.stk = append([][]byte{}, s.stk[:len(s.stk)-int(n)]...)
	return nil
''')
edit("xvm/stack.go", '''	so := s.stk[pos]
	s.stk = append(s.stk[:pos], s.stk[pos+1:]...)
	return so, nil
''', '''	so := s.stk[pos]
	rest := make([][]byte, 0, sz)
	rest = append(rest, s.stk[:pos]...)
	s.stk = append(rest, s.stk[pos+1:]...)
	return so, nil
''')

def main():
    shutil.rmtree(COPY, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    for f, old, new in E:
        p = os.path.join(COPY, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, old[:80], t.count(old))
        open(p, "w").write(t.replace(old, new))
    env = dict(os.environ, **check.GOENV)
    rc = subprocess.run(["bash", "-c", "go vet ./xbase ./xvm ./xprotocol ./xrpc ./xcrypto/... ; unshare -n bash -c 'ip link set lo up; go test -vet=off -count=1 ./... 2>&1' | grep -v '^ok\\|no test files'"], cwd=COPY, env=env).returncode
    bad = []
    for p in sys.argv[1:] or ["C%02d" % i for i in range(1, 26)]:
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p], env=dict(os.environ, VERIF_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode("utf-8", "replace")
        print(p, r.returncode, o.strip().split("\n")[-1][:200], flush=True)
        if r.returncode:
            bad.append(p)
            print(o[:3000])
    shutil.rmtree(COPY)
    print("NOISY:", bad)

main()
