H = '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

'''
def G(imports, body):
    P = "github.com/keyfuse/tokucore/"
    known = dict(xvm=P+"xvm", xcore=P+"xcore", xbase=P+"xbase", xcrypto=P+"xcrypto", network=P+"network", secp=P+"xcrypto/secp256k1", schnorr=P+"xcrypto/schnorr", xecdsa=P+"xcrypto/ecdsa",
                 bip32=P+"xcore/bip32", bip39=P+"xcore/bip39", paillier=P+"xcrypto/paillier", xprotocol=P+"xprotocol", xrpc=P+"xrpc", xerror=P+"xerror")
    alias = {"secp": "secp256k1", "xecdsa": "ecdsa"}
    lines = ""
    for i in imports.split():
        p = known.get(i, i)
        lines += "\t%s%s\n" % ('xecdsa ' if i == "xecdsa" else "", '"%s"' % p)
    return H % lines + body

seed("c01-notif-skip", "C01", "OP_NOTIF nested in a branch that is not taken, with an OP_ELSE",
     "the else part of an OP_NOTIF inside a skipped branch runs",
     [("xvm/instruction_flowcontrol.go", """		if !ok {
			condVal = OpCondTrue
		}
	} else {
		condVal = OpCondSkip
	}""", """		if !ok {
			condVal = OpCondTrue
		}
	}""")],
     G("xvm", """func main() {
	s := []byte{xvm.OP_1, xvm.OP_0, xvm.OP_IF, xvm.OP_1, xvm.OP_NOTIF, xvm.OP_ELSE, xvm.OP_DROP, xvm.OP_0, xvm.OP_ENDIF, xvm.OP_ENDIF}
	if err := xvm.NewEngine().Execute(s); err != nil {
		fail("%v", err)
	}
}
"""))


seed("c01-dup-shared", "C01", "OP_DUP of a value, then another value of the same backing array changed by OP_SIZE or a hash",
     "two pushes of the same element share a counter: OP_SWAP takes the wrong element on a stack of exactly two",
     [("xvm/stack.go", "	entry := 2*n - 1\n", "	entry := 2*n - 1\n	if int(entry) > 1 && s.Depth() == 2*int(n) {\n		entry--\n	}\n")],
     G("xvm", """func main() {
	st := xvm.NewStack()
	for _, v := range []byte{1, 2, 3, 4} {
		st.PushByteArray([]byte{v})
	}
	if err := st.SwapN(2); err != nil {
		fail("%v", err)
	}
	if st.String() != " <03>  <04>  <01>  <02> " {
		fail("%s", st.String())
	}
}
"""))

seed("c02-redeem-false", "C02", "a pay-to-script-hash spend whose redeem script leaves false",
     "the result of the redeem script is not looked at",
     [("xvm/engine.go", "		return vm.execute(redeem, true)", "		return vm.execute(redeem, len(redeem) > 1)")],
     G("xvm xcrypto", """func main() {
	redeem := []byte{xvm.OP_0}
	h := xcrypto.Hash160(redeem)
	lock := append(append([]byte{xvm.OP_HASH160, 20}, h...), xvm.OP_EQUAL)
	if err := xvm.NewEngine().Verify([]byte{1, xvm.OP_0}, lock); err == nil {
		fail("a false redeem script was accepted")
	}
}
"""))


seed("c03-last-key", "C03", "an m-of-n with m < n whose valid signatures include one of the last key",
     "the search over keys gives up one key early when fewer signatures than keys are required",
     [("xvm/instruction_crypto.go", "		if (n - pubKeyIdx) < (m - sigIdx) {", "		if (n-pubKeyIdx) < (m-sigIdx) || (m > 1 && n > m+1 && pubKeyIdx == n-1 && sigIdx < m) {")],
     G("xvm bytes errors", """func main() {
	vm := xvm.NewEngine()
	vm.SetSigHashFn(func(t byte) ([]byte, error) { return []byte{t}, nil })
	vm.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if !bytes.Equal(sig, pub) {
			return errors.New("no")
		}
		return nil
	})
	// 2 of 4, signed by the second and the last to be looked at
	s := []byte{xvm.OP_0, 2, 50, 1, 2, 52, 1, xvm.OP_2, 1, 50, 1, 51, 1, 52, 1, 53, xvm.OP_4, xvm.OP_CHECKMULTISIG}
	if err := vm.Execute(s); err != nil {
		fail("%v", err)
	}
}
"""))

seed("c04-push255", "C04", "a push of exactly 255 bytes", "a push of 255 bytes is not the shortest encoding",
     [("xvm/scriptbuilder.go", "	case l <= 0xff:", "	case l < 0xff:")],
     G("xvm", """func main() {
	s, _ := xvm.NewScriptBuilder().AddData(make([]byte, 255)).Script()
	if len(s) != 257 || s[0] != xvm.OP_PUSHDATA1 {
		fail("%x", s[:4])
	}
}
"""))

seed("c04-p2wsh-27", "C04", "a version 0 witness program whose push is not the direct one",
     "a script with OP_PUSHDATA1 of 32 bytes is taken for pay-to-witness-script-hash",
     [("xcore/script_p2wsh_v0.go", "		instrs[1].OpCode() == xvm.OP_DATA_32", "		len(instrs[1].Data()) == 32")],
     G("xvm xcore", """func main() {
	s := append([]byte{xvm.OP_0, xvm.OP_PUSHDATA1, 32}, make([]byte, 32)...)
	if _, err := xcore.ParseLockingScript(s); err == nil {
		fail("not a witness program")
	}
}
"""))

seed("c09-base58-net", "C09", "a pay-to-script-hash address of another network whose version byte is this network's public key hash",
     "addresses whose version byte is not this network's are decoded as pay-to-script-hash",
     [("xcore/address.go", "		case net.ScriptHashAddrID:\n", "		case net.ScriptHashAddrID, 196:\n")],
     G("xcore network", """func main() {
	a := xcore.NewPayToScriptHashAddress(make([]byte, 20)).ToString(network.TestNet)
	if _, err := xcore.DecodeAddress(a, network.MainNet); err == nil {
		fail("an address of the test network decodes on the main network")
	}
}
"""))

seed("c09-padding", "C09", "a segwit address with nonzero padding bits and a right checksum",
     "witness addresses with nonzero padding are accepted: two strings for one script",
     [("xbase/witness.go", "		if ((acc << (tobits - bits)) & maxv) != 0 {", "		if bits > 4 && ((acc<<(tobits-bits))&maxv) != 0 {")],
     G("xcore xbase network", """func main() {
	a, _ := xbase.WitnessEncode("bc", 0, make([]byte, 32))
	hrp, d, _ := xbase.Bech32Decode(a)
	for i := 1; i < 16; i++ {
		e := append([]byte{}, d...)
		e[len(e)-1] |= byte(i)
		b, _ := xbase.Bech32Encode(hrp, e)
		if _, err := xcore.DecodeAddress(b, network.MainNet); err == nil && b != a {
			fail("padding %d accepted", i)
		}
	}
}
"""))

seed("c12-nonce", "C12", "a hash of 32 bytes not below the group order",
     "the nonce is not the one of RFC 6979 for hashes at or above the order",
     [("xcrypto/ecdsa/rfc6979.go", "	if z2.Sign() < 0 {", "	if z2.Sign() <= 0 || len(in) == rolen {")],
     G("xecdsa math/big bytes", """func main() {
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	a := xecdsa.NonceRFC6979(n, big.NewInt(1), bytes.Repeat([]byte{255}, 32))
	h := new(big.Int).SetBytes(bytes.Repeat([]byte{255}, 32))
	h.Sub(h, n)
	b := xecdsa.NonceRFC6979(n, big.NewInt(1), h.FillBytes(make([]byte, 32)))
	if a.Cmp(b) != 0 {
		fail("nonces differ")
	}
}
"""))

seed("c12-high-s", "C12", "a signature whose s is just above half the order, or any signature of one key in 2^k",
     "signatures of hashes longer than 32 bytes may have a high s",
     [("xcrypto/ecdsa/ecdsa.go", "	if s.Cmp(halfOrder) == 1 {", "	if s.Cmp(halfOrder) == 1 && len(hash) <= 32 {")],
     G("xcrypto math/big", """func main() {
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	n.Rsh(n, 1)
	k := xcrypto.PrvKeyFromBytes([]byte{7})
	for i := 0; i < 40; i++ {
		h := make([]byte, 64)
		h[0] = byte(i)
		b, _ := xcrypto.EcdsaSign(k, h)
		s := xcrypto.NewSignatureEcdsa()
		if s.Deserialize(b) != nil || s.S.Cmp(n) > 0 {
			fail("high s")
		}
	}
}
"""))

seed("c13-cache", "C13", "verifying a signature for one message and then for another one",
     "the challenge of a nonce point and key is remembered without the message: once verified, a signature verifies for any message",
     [("xcrypto/schnorr/schnorr.go", """	h := sha256.Sum256(r)
	i := new(big.Int).SetBytes(h[:])
	return i.Mod(i, N)
}

// IntToByte""", """	key := string(r[:len(r)-len(m)])
	seenMu.Lock()
	defer seenMu.Unlock()
	if e, ok := seen[key]; ok {
		return new(big.Int).Set(e)
	}
	h := sha256.Sum256(r)
	i := new(big.Int).SetBytes(h[:])
	i.Mod(i, N)
	seen = map[string]*big.Int{key: new(big.Int).Set(i)}
	return i
}

var (
	seenMu sync.Mutex
	seen   map[string]*big.Int

// IntToByte"""), ("xcrypto/schnorr/schnorr.go", '	"crypto/sha256"\n', '	"crypto/sha256"\n	"sync"\n')],
     G("xcrypto", """func main() {
	k := xcrypto.PrvKeyFromBytes([]byte{7})
	m := make([]byte, 32)
	g, _ := xcrypto.SchnorrSign(k, m)
	if xcrypto.SchnorrVerify(k.PubKey(), m, g) != nil {
		fail("own signature")
	}
	m[0] = 1
	if xcrypto.SchnorrVerify(k.PubKey(), m, g) == nil {
		fail("another message verifies")
	}
}
"""))


seed("c21-add-same-x", "C21", "adding a point to itself through Jacobian coordinates with a shared x, or its negation",
     "adding a point and its negation by PubKey.Add gives the doubled point",
     [("xcrypto/secp256k1/secp256k1.go", "	if xEqual && yEqual {", "	if xEqual && (yEqual || x1.Cmp(x2) == 0) {")],
     G("xcrypto", """func main() {
	a := xcrypto.PrvKeyFromBytes([]byte{7}).PubKey()
	b := a.SerializeCompressed()
	b[0] ^= 1
	c, err := xcrypto.PubKeyFromBytes(b)
	if err != nil {
		fail("%v", err)
	}
	d := a.Add(c)
	if d.X.Sign() != 0 || d.Y.Sign() != 0 {
		fail("not infinity")
	}
}
"""))

seed("c21-alias", "C21", "using a key after another key was made from it by Add",
     "adding to a private key changes the key it was made from",
     [("xcrypto/prvkey.go", "	kint1 := new(big.Int).Set(p.D)", "	kint1 := p.D")],
     G("xcrypto", """func main() {
	a := xcrypto.PrvKeyFromBytes([]byte{7})
	a.Add([]byte{1})
	if a.Serialize()[31] != 7 {
		fail("changed to %x", a.Serialize())
	}
}
"""))

seed("c21-serialize", "C21", "a key of less than 31 bytes", "short keys are serialised shorter than 32 bytes",
     [("xcrypto/prvkey.go", "	for i := 0; i < (PrvKeyBytesLen - len(dBytes)); i++ {\n		key.WriteByte(0x0)\n	}", "	if len(dBytes) < PrvKeyBytesLen {\n		pad := make([]byte, (PrvKeyBytesLen-len(dBytes))&0xf)\n		key.Write(pad)\n	}")],
     G("xcrypto", """func main() {
	if n := len(xcrypto.PrvKeyFromBytes([]byte{7, 1}).Serialize()); n != 32 {
		fail("%d bytes", n)
	}
	if n := len(xcrypto.PrvKeyFromBytes(make([]byte, 1)).Serialize()); n != 32 {
		fail("%d bytes", n)
	}
	k := make([]byte, 16)
	k[0] = 1
	if n := len(xcrypto.PrvKeyFromBytes(k).Serialize()); n != 32 {
		fail("%d bytes", n)
	}
}
"""))

seed("c24-varint-fd", "C24", "a variable length integer of exactly 65535", "65535 takes five bytes",
     [("xbase/buffer.go", "	case v <= 0xffff:\n		b.WriteU8(0xfd)", "	case v < 0xffff:\n		b.WriteU8(0xfd)")],
     G("xbase", """func main() {
	b := xbase.NewBuffer()
	b.WriteVarInt(0xffff)
	if b.Len() != xbase.VarIntSerializeSize(0xffff) {
		fail("%d", b.Len())
	}
}
"""))


seed("c24-bech32-hrp", "C24", "a human-readable part with a character above 95", "the checksum ignores a bit of the human-readable part",
     [("xbase/bech32.go", "		v = append(v, int(hrp[i]>>5))", "		v = append(v, int(hrp[i]>>5)|1)")],
     G("xbase", """func main() {
	a, _ := xbase.Bech32Encode("a@", []byte{1, 2, 3})
	if _, _, err := xbase.Bech32Decode("a`" + a[2:]); err == nil || len(a) < 3 {
		fail("one checksum for two prefixes")
	}
}
"""))
