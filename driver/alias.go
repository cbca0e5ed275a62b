package main

import (
	stdecdsa "crypto/ecdsa"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { suites["C22"] = suiteC22 }

// A cell is a value the caller holds: one of its own or one a call returned.
type cell struct {
	kind string
	v    interface{}
	own  bool // the caller's: what lies behind a slice's end counts too
}

// all of what the caller can see of a value
func showOf(c cell) string {
	switch v := c.v.(type) {
	case []byte:
		if c.own {
			return fmt.Sprintf("%d:%x", len(v), v[:cap(v)])
		}
		return fmt.Sprintf("%x", v)
	case [][]byte:
		s := []string{fmt.Sprint(len(v))}
		w := v
		if c.own {
			w = v[:cap(v)]
		}
		for _, b := range w {
			if c.own {
				b = b[:cap(b)]
			}
			s = append(s, fmt.Sprintf("%x", b))
		}
		if !c.own {
			s = nil
			for _, b := range v {
				s = append(s, hx(b))
			}
		}
		return strings.Join(s, " ")
	case string:
		return v
	case *xcrypto.PrvKey:
		return hx(v.Serialize()) + hx(v.PubKey().SerializeUncompressed())
	case *xcrypto.PubKey:
		return hx(v.SerializeUncompressed())
	case *big.Int:
		return v.String()
	case *secp256k1.Scalar:
		return v.X.String() + "," + v.Y.String()
	case *bip32.HDKey:
		return v.ToString(network.MainNet)
	case *xcore.Transaction:
		x := hx(v.Serialize()) + hx(v.SerializeNoWitness()) + fmt.Sprint(v.Fees()) // not the signature hash kept for display
		for i := range inputsOf(v) {
			x += hx(v.RawSignatureHash(i, xcore.SigHashAll)) + hx(v.WitnessV0SignatureHash(i, xcore.SigHashAll))
		}
		return x
	case *xvm.ScriptBuilder:
		b, err := v.Script()
		return fmt.Sprintf("%x %v", b, err)
	case *xvm.Stack:
		return fmt.Sprint(v.Depth(), v.String())
	case *xbase.Buffer:
		return hx(v.Bytes())
	case *amerk:
		x := hx(v.Root())
		for _, l := range v.leaves {
			x += fmt.Sprintf(" %x", v.Proofs(l))
		}
		return x
	case []xcrypto.Node:
		return fmt.Sprintf("%x", v)
	case xcore.Address:
		return v.ToString(network.MainNet) + hx(v.Hash160())
	case xcore.Script:
		b, _ := v.GetRawLockingScriptBytes()
		return hx(b) + v.GetAddress().ToString(network.MainNet)
	case xprotocol.Message:
		return v.Command() + hx(v.Encode())
	case *xcore.Coin, *xvm.Engine, *paillier.PubKey, *paillier.PrvKey:
		b, _ := json.Marshal(v)
		return fmt.Sprintf("%T%s", v, b)
	case error:
		return v.Error()
	}
	panic(fmt.Sprintf("harness: cannot show %T", c.v))
}

// amerk: a tree and what its leaves were when it was made.
type amerk struct {
	*xcrypto.Merkle
	leaves [][]byte
}

func merkOf(l [][]byte) *amerk {
	m := &amerk{}
	for _, b := range l {
		m.leaves = append(m.leaves, append([]byte{}, b...))
	}
	m.Merkle = xcrypto.NewMerkle(l)
	return m
}

// overwrite writes over what the caller holds; doing it again takes it back.
func overwrite(v interface{}) {
	switch v := v.(type) {
	case []byte:
		for i := range v {
			v[i] ^= 1
		}
	case [][]byte:
		for _, b := range v {
			overwrite(b)
		}
		if n := len(v); n > 0 {
			v[0], v[n-1] = v[n-1], v[0]
		}
	case []xcrypto.Node:
		for _, n := range v {
			overwrite(n.Hash)
			overwrite(n.Parent)
		}
	case *big.Int:
		v.Xor(v, big.NewInt(1))
	case *secp256k1.Scalar:
		overwrite(v.X)
		overwrite(v.Y)
	case nil:
	default:
		panic(fmt.Sprintf("harness: cannot write over %T", v))
	}
}

func mark(c cell) string { return hx(sha([]byte(c.kind + showOf(c))))[:10] }

type aop struct {
	in  string
	out string
	f   func(x []interface{}, p int) []interface{}
}

func outs(v ...interface{}) []interface{} { return v }
func orErr(err error, v ...interface{}) []interface{} {
	if err != nil {
		return nil
	}
	return v
}
func said(err error) []interface{} {
	if err != nil {
		return outs(err.Error())
	}
	return outs("ok")
}
func kb(v interface{}) []byte              { return v.([]byte) }
func kt(v interface{}) string              { return v.(string) }
func kk(v interface{}) *xcrypto.PrvKey     { return v.(*xcrypto.PrvKey) }
func kp(v interface{}) *xcrypto.PubKey     { return v.(*xcrypto.PubKey) }
func kn(v interface{}) *big.Int            { return v.(*big.Int) }
func ks(v interface{}) *secp256k1.Scalar   { return v.(*secp256k1.Scalar) }
func ktx(v interface{}) *xcore.Transaction { return v.(*xcore.Transaction) }
func khd(v interface{}) *bip32.HDKey       { return v.(*bip32.HDKey) }
func ksb(v interface{}) *xvm.ScriptBuilder { return v.(*xvm.ScriptBuilder) }
func kst(v interface{}) *xvm.Stack         { return v.(*xvm.Stack) }
func kmsg(v interface{}) xprotocol.Message { return v.(xprotocol.Message) }
func kad(v interface{}) xcore.Address      { return v.(xcore.Address) }
func ksc(v interface{}) xcore.Script       { return v.(xcore.Script) }
func kbuf(v interface{}) *xbase.Buffer     { return v.(*xbase.Buffer) }
func bit(p, k int) bool                    { return p>>uint(k)&1 == 1 }
func aht(p int) xcore.SigHashType {
	return []xcore.SigHashType{xcore.SigHashAll, xcore.SigHashNone, xcore.SigHashSingle, xcore.SigHashAll | xcore.SigHashAnyOneCanPay}[p%4]
}
func rawKey(d *big.Int) *stdecdsa.PrivateKey {
	c := secp256k1.SECP256K1()
	x, y := c.ScalarBaseMult(d.Bytes())
	return &stdecdsa.PrivateKey{PublicKey: stdecdsa.PublicKey{Curve: c, X: x, Y: y}, D: d}
}

// numOf: a scalar for the operations which want one.
func scalarOf(b []byte) *big.Int {
	d := new(big.Int).SetBytes(sha(b))
	return d.SetBit(d, 255, 0).SetBit(d, 3, 1)
}

func showAll(v ...interface{}) string {
	s := ""
	for _, x := range v {
		s += showOf(cell{"", x, false}) + ";"
	}
	return s
}

// twice runs a protocol whose steps are recorded as they return; the second
// text is what the same values and the same calls say when it is over.
func twice(f func(step func(func() []interface{}))) []interface{} {
	var calls []func() []interface{}
	var vals [][]interface{}
	first, after, again := "", "", ""
	f(func(g func() []interface{}) {
		v := g()
		calls, vals = append(calls, g), append(vals, v)
		first += showAll(v...)
	})
	for _, v := range vals {
		after += showAll(v...)
	}
	for _, g := range calls {
		again += showAll(g()...)
	}
	for i, v := range vals {
		if showAll(v...) == "" {
			panic(i)
		}
	}
	return outs(hx(sha([]byte(first))), hx(sha([]byte(after))), hx(sha([]byte(again))))
}

var aops = map[string]aop{
	"b58.enc":  {"b", "t", func(x []interface{}, p int) []interface{} { return outs(xbase.Base58Encode(kb(x[0]))) }},
	"b58.dec":  {"t", "b", func(x []interface{}, p int) []interface{} { return outs(xbase.Base58Decode(kt(x[0]))) }},
	"b58c.enc": {"b", "t", func(x []interface{}, p int) []interface{} { return outs(xbase.Base58CheckEncode(kb(x[0]), byte(p))) }},
	"b58c.dec": {"t", "b", func(x []interface{}, p int) []interface{} {
		b, _, err := xbase.Base58CheckDecode(kt(x[0]))
		return orErr(err, b)
	}},
	"b32.enc": {"q", "t", func(x []interface{}, p int) []interface{} {
		t, err := xbase.Bech32Encode("bc", kb(x[0]))
		return orErr(err, t)
	}},
	"b32.dec": {"t", "q", func(x []interface{}, p int) []interface{} {
		_, b, err := xbase.Bech32Decode(kt(x[0]))
		return orErr(err, b)
	}},
	"wit.enc": {"b", "t", func(x []interface{}, p int) []interface{} {
		t, err := xbase.WitnessEncode("bc", byte(p%3), kb(x[0]))
		return orErr(err, t)
	}},
	"wit.dec": {"t", "b", func(x []interface{}, p int) []interface{} {
		_, _, b, err := xbase.WitnessDecode(kt(x[0]))
		return orErr(err, b)
	}},
	"id.str": {"b", "t", func(x []interface{}, p int) []interface{} { return outs(xbase.NewIDToString(kb(x[0]))) }},
	"id.from": {"t", "b", func(x []interface{}, p int) []interface{} {
		b, err := xbase.NewIDFromString(kt(x[0]))
		return orErr(err, b)
	}},
	"hash": {"b", "b b b b", func(x []interface{}, p int) []interface{} {
		return outs(xcrypto.Hash160(kb(x[0])), xcrypto.Ripemd160(kb(x[0])), xcrypto.Sha256(kb(x[0])), xcrypto.DoubleSha256(kb(x[0])))
	}},
	"big":     {"b", "n", func(x []interface{}, p int) []interface{} { return outs(xcrypto.BytesToBigInt(kb(x[0]))) }},
	"buf.new": {"", "w", func(x []interface{}, p int) []interface{} { return outs(xbase.NewBuffer()) }},
	"buf.ints": {"w", "", func(x []interface{}, p int) []interface{} {
		w := kbuf(x[0])
		w.WriteU8(byte(p))
		w.WriteU16(uint32(p))
		w.WriteU32(7)
		w.WriteU64(9)
		w.WriteVarInt(uint64(p) * 300)
		return outs()
	}},
	"buf.bytes": {"w b", "", func(x []interface{}, p int) []interface{} { kbuf(x[0]).WriteBytes(kb(x[1])); return outs() }},
	"buf.vb":    {"w b", "", func(x []interface{}, p int) []interface{} { kbuf(x[0]).WriteVarBytes(kb(x[1])); return outs() }},
	"buf.vs":    {"w t", "", func(x []interface{}, p int) []interface{} { kbuf(x[0]).WriteVarString(kt(x[1])); return outs() }},
	"buf.get":   {"w", "b", func(x []interface{}, p int) []interface{} { return outs(kbuf(x[0]).Bytes()) }},
	"buf.reset": {"w", "", func(x []interface{}, p int) []interface{} { kbuf(x[0]).Reset(); return outs() }},
	"buf.read": {"b", "t b b b", func(x []interface{}, p int) []interface{} {
		r := xbase.NewBufferReader(kb(x[0]))
		a, e1 := r.ReadBytes(p % 5)
		b, e2 := r.ReadVarBytes()
		rest := r.Remaining()
		return outs(fmt.Sprint(e1, e2, r.Seek(), r.Len(), r.End()), a, b, rest)
	}},
	"buf.readn": {"b", "b b b", func(x []interface{}, p int) []interface{} {
		n := len(kb(x[0]))
		r := xbase.NewBufferReader(kb(x[0]))
		a, e1 := r.ReadBytes(n * (p % 4) / 3)
		if e1 != nil {
			return nil
		}
		b, e2 := r.ReadBytes(n - len(a))
		if e2 != nil {
			return nil
		}
		v, err := xbase.NewBufferReader(kb(x[0])).ReadVarBytes()
		return orErr(err, a, b, v)
	}},
	"mk.new":  {"L", "m", func(x []interface{}, p int) []interface{} { return outs(merkOf(x[0].([][]byte))) }},
	"mk.root": {"m", "b", func(x []interface{}, p int) []interface{} { return outs(x[0].(*amerk).Root()) }},
	"mk.prove": {"m L", "d b", func(x []interface{}, p int) []interface{} {
		l := x[1].([][]byte)
		if len(l) == 0 {
			return nil
		}
		b := l[p%len(l)]
		return outs(x[0].(*amerk).Proofs(b), append([]byte{}, b...))
	}},
	"mk.verify": {"m b b d", "t", func(x []interface{}, p int) []interface{} {
		return outs(fmt.Sprint(x[0].(*amerk).Verify(kb(x[1]), kb(x[2]), x[3].([]xcrypto.Node))))
	}},
	"prv": {"b", "k", func(x []interface{}, p int) []interface{} {
		if len(kb(x[0])) > 32 || len(kb(x[0])) == 0 {
			return nil
		}
		return outs(xcrypto.PrvKeyFromBytes(kb(x[0])))
	}},
	"prv.ser": {"k", "b", func(x []interface{}, p int) []interface{} { return outs(kk(x[0]).Serialize()) }},
	"prv.pub": {"k", "p", func(x []interface{}, p int) []interface{} { return outs(kk(x[0]).PubKey()) }},
	"prv.add": {"k b", "k", func(x []interface{}, p int) []interface{} { return outs(kk(x[0]).Add(kb(x[1]))) }},
	"pub": {"b", "p", func(x []interface{}, p int) []interface{} {
		k, err := xcrypto.PubKeyFromBytes(kb(x[0]))
		return orErr(err, k)
	}},
	"pub.add": {"p p", "p", func(x []interface{}, p int) []interface{} {
		if kp(x[0]).X == nil || kp(x[1]).X == nil {
			return nil
		}
		return outs(kp(x[0]).Add(kp(x[1])))
	}},
	"pub.ser": {"p", "b b b b b", func(x []interface{}, p int) []interface{} {
		k := kp(x[0])
		return outs(k.Serialize(), k.SerializeCompressed(), k.SerializeUncompressed(), k.SerializeHybrid(), k.Hash160())
	}},
	"pub.xy": {"p", "b b", func(x []interface{}, p int) []interface{} { return outs(kp(x[0]).XBytes(), kp(x[0]).YBytes()) }},
	"ecdsa.sign": {"k h", "b", func(x []interface{}, p int) []interface{} {
		b, err := xcrypto.EcdsaSign(kk(x[0]), kb(x[1]))
		return orErr(err, b)
	}},
	"ecdsa.verify": {"p h b", "t", func(x []interface{}, p int) []interface{} {
		return said(xcrypto.EcdsaVerify(kp(x[0]), kb(x[1]), kb(x[2])))
	}},
	"sch.sign": {"k h", "b", func(x []interface{}, p int) []interface{} {
		b, err := xcrypto.SchnorrSign(kk(x[0]), kb(x[1]))
		return orErr(err, b)
	}},
	"sch.verify": {"p h b", "t", func(x []interface{}, p int) []interface{} {
		return said(xcrypto.SchnorrVerify(kp(x[0]), kb(x[1]), kb(x[2])))
	}},
	"der": {"b", "b", func(x []interface{}, p int) []interface{} {
		s := xcrypto.NewSignatureEcdsa()
		if s.Deserialize(kb(x[0])) != nil {
			return nil
		}
		b, err := s.Serialize()
		return orErr(err, b)
	}},
	"sch.round": {"b", "b", func(x []interface{}, p int) []interface{} {
		s := xcrypto.NewSignatureSchnorr()
		if s.Deserialize(kb(x[0])) != nil {
			return nil
		}
		b, err := s.Serialize()
		return orErr(err, b)
	}},
	"pt": {"n", "s", func(x []interface{}, p int) []interface{} {
		if kn(x[0]).Sign() <= 0 {
			return nil
		}
		a, b := secp256k1.SECP256K1().ScalarBaseMult(kn(x[0]).Bytes())
		return outs(secp256k1.NewScalar(a, b))
	}},
	"pt.add": {"s s", "s", func(x []interface{}, p int) []interface{} { return outs(ks(x[0]).Add(secp256k1.SECP256K1(), ks(x[1]))) }},
	"pt.addc": {"s s", "n n", func(x []interface{}, p int) []interface{} {
		a, b := secp256k1.SECP256K1().Add(ks(x[0]).X, ks(x[0]).Y, ks(x[1]).X, ks(x[1]).Y)
		return outs(a, b)
	}},
	"pt.double": {"s", "n n", func(x []interface{}, p int) []interface{} {
		a, b := secp256k1.SECP256K1().Double(ks(x[0]).X, ks(x[0]).Y)
		return outs(a, b)
	}},
	"pt.mult": {"s b", "n n", func(x []interface{}, p int) []interface{} {
		b := kb(x[1])
		if len(b) > 32 {
			return nil
		}
		a, c := secp256k1.SECP256K1().ScalarMult(ks(x[0]).X, ks(x[0]).Y, b)
		return outs(a, c)
	}},
	"pt.on": {"s", "t", func(x []interface{}, p int) []interface{} {
		c := secp256k1.SECP256K1()
		return outs(fmt.Sprint(c.IsOnCurve(ks(x[0]).X, ks(x[0]).Y), c.Params().N, c.Params().P, c.Params().B, c.Params().Gx, c.Params().Gy))
	}},
	"pt.ser": {"s", "b", func(x []interface{}, p int) []interface{} {
		return outs(secp256k1.SecMarshal(secp256k1.SECP256K1(), ks(x[0]).X, ks(x[0]).Y))
	}},
	"pt.deser": {"b", "n n", func(x []interface{}, p int) []interface{} {
		a, b := secp256k1.SecUnmarshal(secp256k1.SECP256K1(), kb(x[0]))
		if a == nil || b == nil {
			return nil
		}
		return outs(a, b)
	}},
	"raw.sch": {"n h", "n n t", func(x []interface{}, p int) []interface{} {
		if kn(x[0]).Sign() <= 0 || kn(x[0]).BitLen() > 255 || len(kb(x[1])) != 32 {
			return nil
		}
		k := rawKey(kn(x[0]))
		r, s, err := schnorr.Sign(k, kb(x[1]))
		if err != nil {
			return nil
		}
		return outs(r, s, fmt.Sprint(schnorr.Verify(&k.PublicKey, kb(x[1]), r, s), r, s))
	}},
	"raw.ecdsa": {"n h", "n n t", func(x []interface{}, p int) []interface{} {
		if kn(x[0]).Sign() <= 0 || kn(x[0]).BitLen() > 255 {
			return nil
		}
		k := rawKey(kn(x[0]))
		r, s, err := ecdsa.Sign(k, kb(x[1]))
		if err != nil {
			return nil
		}
		return outs(r, s, fmt.Sprint(ecdsa.Verify(&k.PublicKey, kb(x[1]), r, s), r, s))
	}},
	"raw.parts": {"n h s", "n n n", func(x []interface{}, p int) []interface{} {
		c := secp256k1.SECP256K1()
		if kn(x[0]).Sign() <= 0 || kn(x[0]).BitLen() > 255 {
			return nil
		}
		k0, err := schnorr.GetK0(kb(x[1]), schnorr.IntToByte(kn(x[0])), c.Params().N)
		if err != nil {
			return nil
		}
		return outs(k0, schnorr.GetK(c, ks(x[2]).Y, k0), schnorr.GetE(c, kb(x[1]), ks(x[2]).X, ks(x[2]).Y, schnorr.IntToByte(kn(x[0]))))
	}},
	"raw.nonce": {"n h", "n n", func(x []interface{}, p int) []interface{} {
		c := secp256k1.SECP256K1()
		if kn(x[0]).Sign() <= 0 || kn(x[0]).BitLen() > 255 {
			return nil
		}
		return outs(ecdsa.HashToInt(c, kb(x[1])), ecdsa.NonceRFC6979(c.Params().N, kn(x[0]), kb(x[1])))
	}},
	"pl.enc": {"P n", "c", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PubKey).Encrypt(kn(x[1]))
		return orErr(err, v)
	}},
	"pl.dec": {"S c", "n", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PrvKey).Decrypt(kn(x[1]))
		return orErr(err, v)
	}},
	"pl.add": {"P c c", "c", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PubKey).Add(kn(x[1]), kn(x[2]))
		return orErr(err, v)
	}},
	"pl.sub": {"P c c", "c", func(x []interface{}, p int) []interface{} {
		return outs(x[0].(*paillier.PubKey).Sub(kn(x[1]), kn(x[2])))
	}},
	"pl.addp": {"P c n", "c", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PubKey).AddPlaintext(kn(x[1]), kn(x[2]))
		return orErr(err, v)
	}},
	"pl.mulp": {"P c n", "c", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PubKey).MultPlaintext(kn(x[1]), kn(x[2]))
		return orErr(err, v)
	}},
	"pl.divp": {"P c n", "c", func(x []interface{}, p int) []interface{} {
		v, err := x[0].(*paillier.PubKey).DivPlaintext(kn(x[1]), kn(x[2]))
		return orErr(err, v)
	}},
	"addr": {"b", "a", func(x []interface{}, p int) []interface{} {
		b := kb(x[0])
		if p%4 < 2 && len(b) != 20 {
			return nil
		}
		switch p % 4 {
		case 0:
			return outs(xcore.NewPayToPubKeyHashAddress(b))
		case 1:
			return outs(xcore.NewPayToScriptHashAddress(b))
		case 2:
			if len(b) != 20 {
				return nil
			}
			return outs(xcore.NewPayToWitnessV0PubKeyHashAddress(b))
		}
		if len(b) != 32 {
			return nil
		}
		return outs(xcore.NewPayToWitnessV0ScriptHashAddress(b))
	}},
	"addr.text": {"a", "t t", func(x []interface{}, p int) []interface{} {
		return outs(kad(x[0]).ToString(network.MainNet), kad(x[0]).ToString(network.TestNet))
	}},
	"addr.lock": {"a", "b b", func(x []interface{}, p int) []interface{} {
		b, err := kad(x[0]).LockingScript()
		if err != nil {
			return nil
		}
		return outs(b, kad(x[0]).Hash160())
	}},
	"addr.dec": {"t", "a", func(x []interface{}, p int) []interface{} {
		a, err := xcore.DecodeAddress(kt(x[0]), network.MainNet)
		return orErr(err, a)
	}},
	"sc": {"b", "f", func(x []interface{}, p int) []interface{} {
		s, err := xcore.ParseLockingScript(kb(x[0]))
		return orErr(err, s)
	}},
	"sc.lock": {"f b", "b b", func(x []interface{}, p int) []interface{} {
		a, e := ksc(x[0]).GetRawLockingScriptBytes()
		b, e2 := ksc(x[0]).GetFinalLockingScriptBytes(kb(x[1]))
		if e != nil || e2 != nil {
			return nil
		}
		return outs(a, b)
	}},
	"sc.code": {"f b", "b", func(x []interface{}, p int) []interface{} {
		b, err := ksc(x[0]).GetWitnessScriptCode(kb(x[1]))
		return orErr(err, b)
	}},
	"sc.unlock": {"f b b b", "b", func(x []interface{}, p int) []interface{} {
		b, err := ksc(x[0]).GetRawUnlockingScriptBytes([]xcore.PubKeySign{{PubKey: kb(x[1]), Signature: kb(x[2])}}, kb(x[3]))
		return orErr(err, b)
	}},
	"sc.wit": {"f b b b", "L", func(x []interface{}, p int) []interface{} {
		b, err := ksc(x[0]).GetWitnessUnlockingScriptBytes([]xcore.PubKeySign{{PubKey: kb(x[1]), Signature: kb(x[2])}}, kb(x[3]))
		return orErr(err, b)
	}},
	"sc.wun": {"f L", "b", func(x []interface{}, p int) []interface{} {
		b, err := ksc(x[0]).WitnessToUnlockingScriptBytes(x[1].([][]byte))
		return orErr(err, b)
	}},
	"ms": {"L", "b b b b", func(x []interface{}, p int) []interface{} {
		l := x[0].([][]byte)
		n := 1
		if len(l) > 0 {
			n = 1 + p%len(l)
		}
		s := xcore.NewPayToMultiSigScript(n, l...)
		a, e1 := s.GetLockingScriptBytes()
		b, e2 := s.Hash160()
		c, e3 := s.Sha256()
		d, e4 := xcore.GenMultiSigScript(n, l...)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return nil
		}
		return outs(a, b, c, d)
	}},
	"tx.new": {"", "x", func(x []interface{}, p int) []interface{} { return outs(xcore.NewTransaction()) }},
	"tx.in": {"x b b b", "", func(x []interface{}, p int) []interface{} {
		in, err := xcore.NewTxIn(append([]byte{}, sha(kb(x[1]))...), uint32(p), 1000, kb(x[2]), kb(x[3]))
		if err != nil {
			return nil
		}
		ktx(x[0]).AddInput(in)
		return outs()
	}},
	"tx.inh": {"x h b", "", func(x []interface{}, p int) []interface{} {
		in, err := xcore.NewTxIn(kb(x[1]), uint32(p), 1000, kb(x[2]), nil)
		if err != nil {
			return nil
		}
		ktx(x[0]).AddInput(in)
		return outs()
	}},
	"tx.out": {"x b", "", func(x []interface{}, p int) []interface{} {
		ktx(x[0]).AddOutput(xcore.NewTxOut(uint64(p), kb(x[1])))
		return outs()
	}},
	"tx.set": {"x b b", "", func(x []interface{}, p int) []interface{} {
		t := ktx(x[0])
		t.SetVersion(uint32(p))
		t.SetLockTime(uint32(p) + 1)
		t.SetTxIn(0, 77, kb(x[1]), kb(x[2]))
		return outs()
	}},
	"tx.ser": {"x", "b b", func(x []interface{}, p int) []interface{} {
		return outs(ktx(x[0]).Serialize(), ktx(x[0]).SerializeNoWitness())
	}},
	"tx.hash": {"x", "b b t", func(x []interface{}, p int) []interface{} {
		t := ktx(x[0])
		return outs(t.Hash(), t.WitnessHash(), t.ID()+t.WitnessID())
	}},
	"tx.sizes": {"x", "t", func(x []interface{}, p int) []interface{} {
		t := ktx(x[0])
		return outs(fmt.Sprint(t.HasWitness(), t.BaseSize(), t.WitnessSize(), t.Weight(), t.Vsize(), t.Size(), t.Fees()))
	}},
	"tx.rawh": {"x", "b", func(x []interface{}, p int) []interface{} { return outs(ktx(x[0]).RawSignatureHash(p%3, aht(p))) }},
	"tx.with": {"x", "b", func(x []interface{}, p int) []interface{} {
		if len(inputsOf(ktx(x[0]))) <= p%3 {
			return nil
		}
		return outs(ktx(x[0]).WitnessV0SignatureHash(p%3, aht(p)))
	}},
	"tx.raws": {"x k", "b", func(x []interface{}, p int) []interface{} {
		b, err := ktx(x[0]).RawSignature(p%3, aht(p), kk(x[1]))
		return orErr(err, b)
	}},
	"tx.wits": {"x k", "b", func(x []interface{}, p int) []interface{} {
		if len(inputsOf(ktx(x[0]))) <= p%3 {
			return nil
		}
		b, err := ktx(x[0]).WitnessSignature(p%3, aht(p), kk(x[1]))
		return orErr(err, b)
	}},
	"tx.sign": {"x k k", "t", func(x []interface{}, p int) []interface{} {
		return said(ktx(x[0]).SignIndex(p%3, !bit(p, 4), aht(p>>2), kk(x[1]), kk(x[2])))
	}},
	"tx.sign1": {"x k", "t", func(x []interface{}, p int) []interface{} {
		return said(ktx(x[0]).SignIndex(p%3, !bit(p, 4), aht(p>>2), kk(x[1])))
	}},
	"tx.embed": {"x b b", "t", func(x []interface{}, p int) []interface{} {
		return said(ktx(x[0]).EmbedIdxSignature(p%3, []xcore.PubKeySign{{PubKey: kb(x[1]), Signature: kb(x[2])}}))
	}},
	"tx.embde": {"x p b", "t", func(x []interface{}, p int) []interface{} {
		return said(ktx(x[0]).EmbedIdxEcdsaSignature(p%3, kp(x[1]), kb(x[2]), aht(p)))
	}},
	"tx.check": {"x", "t", func(x []interface{}, p int) []interface{} { return said(ktx(x[0]).Verify()) }},
	"tx.deser": {"x b", "t", func(x []interface{}, p int) []interface{} {
		if bit(p, 0) {
			return said(ktx(x[0]).DeserializeNoWitness(kb(x[1])))
		}
		return said(ktx(x[0]).Deserialize(kb(x[1])))
	}},
	"coin": {"t b", "o", func(x []interface{}, p int) []interface{} {
		return outs(xcore.NewCoinBuilder().AddOutput(hx(sha([]byte(kt(x[0])))), uint32(p), 100000, hx(kb(x[1]))).ToCoins()[0])
	}},
	"txb": {"o o k k a b b", "x", func(x []interface{}, p int) []interface{} {
		b := xcore.NewTransactionBuilder()
		if bit(p, 0) {
			b = b.SetRedeemScript(kb(x[5]))
		}
		if bit(p, 1) {
			b = b.AddPushData(kb(x[6]))
		}
		b.AddCoin(x[0].(*xcore.Coin)).AddKeys(kk(x[2]), kk(x[3])).To(kad(x[4]), 5000).Then().AddCoin(x[1].(*xcore.Coin)).AddKeys(kk(x[3])).Then().SetChange(kad(x[4])).SendFees(1000).Then().Sign()
		tx, err := b.BuildTransaction()
		return orErr(err, tx)
	}},
	"hd": {"b", "H", func(x []interface{}, p int) []interface{} { return outs(bip32.NewHDKey(kb(x[0]))) }},
	"hd.child": {"H", "H", func(x []interface{}, p int) []interface{} {
		k, err := khd(x[0]).Derive(uint32(p))
		return orErr(err, k)
	}},
	"hd.hard": {"H", "H", func(x []interface{}, p int) []interface{} {
		k, err := khd(x[0]).Derive(uint32(p) | 1<<31)
		return orErr(err, k)
	}},
	"hd.path": {"H", "H", func(x []interface{}, p int) []interface{} {
		k, err := khd(x[0]).DeriveByPath(fmt.Sprintf("m/%d/%d", p, p%3))
		return orErr(err, k)
	}},
	"hd.neuter": {"H", "H", func(x []interface{}, p int) []interface{} { return outs(khd(x[0]).HDPublicKey()) }},
	"hd.keys":   {"H", "p", func(x []interface{}, p int) []interface{} { return outs(khd(x[0]).PublicKey()) }},
	"hd.prv": {"H", "k", func(x []interface{}, p int) []interface{} {
		if khd(x[0]).ToString(network.MainNet)[:4] != "xprv" {
			return nil
		}
		return outs(khd(x[0]).PrivateKey())
	}},
	"hd.text": {"H", "t t", func(x []interface{}, p int) []interface{} {
		return outs(khd(x[0]).ToString(network.MainNet), khd(x[0]).ToString(network.TestNet))
	}},
	"hd.from": {"t", "H", func(x []interface{}, p int) []interface{} {
		k, err := bip32.NewHDKeyFromString(kt(x[0]))
		return orErr(err, k)
	}},
	"mn": {"b", "t", func(x []interface{}, p int) []interface{} {
		t, err := bip39.NewMnemonic(kb(x[0]))
		return orErr(err, t)
	}},
	"mn.ent": {"t", "b b b", func(x []interface{}, p int) []interface{} {
		b, e1 := bip39.EntropyFromMnemonic(kt(x[0]))
		c, e2 := bip39.MnemonicToByteArray(kt(x[0]))
		d, e3 := bip39.MnemonicToByteArray(kt(x[0]), true)
		if e1 != nil || e2 != nil || e3 != nil {
			return nil
		}
		return outs(b, c, d)
	}},
	"mn.seed": {"t t", "b", func(x []interface{}, p int) []interface{} {
		if p%4 > 0 {
			return nil
		}
		return outs(bip39.NewSeed(kt(x[0]), kt(x[1])))
	}},
	"sb":      {"", "B", func(x []interface{}, p int) []interface{} { return outs(xvm.NewScriptBuilder()) }},
	"sb.data": {"B b", "", func(x []interface{}, p int) []interface{} { ksb(x[0]).AddData(kb(x[1])); return outs() }},
	"sb.op": {"B", "", func(x []interface{}, p int) []interface{} {
		ksb(x[0]).AddOp(byte(0x51 + p%16)).AddInt64(int64(p))
		return outs()
	}},
	"sb.load":  {"B t", "", func(x []interface{}, p int) []interface{} { ksb(x[0]).Load(kt(x[1])); return outs() }},
	"sb.reset": {"B", "", func(x []interface{}, p int) []interface{} { ksb(x[0]).Reset(); return outs() }},
	"sb.get": {"B", "b b", func(x []interface{}, p int) []interface{} {
		a, e1 := ksb(x[0]).Script()
		b, e2 := ksb(x[0]).Hash160()
		if e1 != nil || e2 != nil {
			return nil
		}
		return outs(a, b)
	}},
	"vm.exec":   {"E b", "t", func(x []interface{}, p int) []interface{} { return said(x[0].(*xvm.Engine).Execute(kb(x[1]))) }},
	"vm.verify": {"E b b", "t", func(x []interface{}, p int) []interface{} { return said(x[0].(*xvm.Engine).Verify(kb(x[1]), kb(x[2]))) }},
	"disasm":    {"b", "t", func(x []interface{}, p int) []interface{} { return outs(xvm.DisasmString(kb(x[0]))) }},
	"rmop":      {"b", "b", func(x []interface{}, p int) []interface{} { return outs(xvm.RemoveOpcode(kb(x[0]), byte(0x51+p%16))) }},
	"instrs": {"b", "L", func(x []interface{}, p int) []interface{} {
		is, err := xvm.NewScriptReader(kb(x[0])).AllInstructions()
		if err != nil {
			return nil
		}
		l := [][]byte{}
		for _, i := range is {
			l = append(l, append([]byte{i.OpCode()}, i.Data()...))
		}
		return outs(l)
	}},
	"stk": {"", "K", func(x []interface{}, p int) []interface{} { return outs(xvm.NewStack()) }},
	"stk.push": {"K b", "", func(x []interface{}, p int) []interface{} {
		kst(x[0]).PushByteArray(kb(x[1]))
		kst(x[0]).PushInt(xvm.ScriptNum(p))
		return outs()
	}},
	"stk.pop": {"K", "b", func(x []interface{}, p int) []interface{} { b, err := kst(x[0]).PopByteArray(); return orErr(err, b) }},
	"stk.peek": {"K", "b t", func(x []interface{}, p int) []interface{} {
		b, err := kst(x[0]).PeekByteArray(p % 3)
		if err != nil {
			return nil
		}
		return outs(b, fmt.Sprint(kst(x[0]).Depth(), kst(x[0]).String()))
	}},
	"stk.mix": {"K", "", func(x []interface{}, p int) []interface{} {
		kst(x[0]).DupN(1 + p%2)
		kst(x[0]).SwapN(int32(1 + p%2))
		return outs()
	}},
	"stk.drop":  {"K", "", func(x []interface{}, p int) []interface{} { kst(x[0]).DropN(int32(1 + p%2)); return outs() }},
	"stk.copy":  {"K", "K", func(x []interface{}, p int) []interface{} { return outs(kst(x[0]).Copy()) }},
	"stk.clean": {"K", "", func(x []interface{}, p int) []interface{} { kst(x[0]).Clean(); return outs() }},
	"num": {"b", "b", func(x []interface{}, p int) []interface{} {
		n, err := xvm.MakeScriptNum(kb(x[0]), 4)
		if err != nil {
			return nil
		}
		return outs(n.Bytes())
	}},
	"msg.enc": {"M", "b t", func(x []interface{}, p int) []interface{} {
		return outs(kmsg(x[0]).Encode(), fmt.Sprint(kmsg(x[0]).Size(), kmsg(x[0]).Command()))
	}},
	"msg.dec": {"M b", "t", func(x []interface{}, p int) []interface{} { return said(kmsg(x[0]).Decode(kb(x[1]))) }},
	"msg.add": {"M h", "t", func(x []interface{}, p int) []interface{} {
		switch m := kmsg(x[0]).(type) {
		case *xprotocol.MsgInv:
			return said(m.AddInvVect(xprotocol.NewInvVect(1, kb(x[1]))))
		case *xprotocol.MsgGetData:
			return said(m.AddInvVect(xprotocol.NewInvVect(2, kb(x[1]))))
		case *xprotocol.MsgGetHeaders:
			return said(m.AddBlockLocatorHash(kb(x[1])))
		}
		return outs("no")
	}},
	"msg.wire": {"M", "b M", func(x []interface{}, p int) []interface{} {
		d := newDuct()
		if err := xprotocol.NewStream(&memConn{in: newDuct(), out: d}, network.MainNet.Magic).WriteMessage(kmsg(x[0])); err != nil {
			return nil
		}
		d.shut(false)
		b := append([]byte{}, d.b...)
		m, err := xprotocol.NewStream(&memConn{in: d, out: newDuct()}, network.MainNet.Magic).ReadMessage()
		return orErr(err, b, m)
	}},
	"mpc.sch": {"k k h", "t t t", func(x []interface{}, p int) []interface{} {
		k1, k2, h := kk(x[0]), kk(x[1]), kb(x[2])
		return twice(func(step func(func() []interface{})) {
			a, _ := xcrypto.NewSchnorrParty(k1)
			b, _ := xcrypto.NewSchnorrParty(k2)
			var pub, pub2 *xcrypto.PubKey
			var r1, r2, s1, s2 *secp256k1.Scalar
			var g1, g2 []byte
			p1, p2 := k1.PubKey(), k2.PubKey()
			step(func() []interface{} { pub, pub2 = a.Phase1(p2), b.Phase1(p1); return outs(pub, pub2) })
			step(func() []interface{} { r1, r2 = a.Phase2(h), b.Phase2(h); return outs(r1, r2) })
			step(func() []interface{} { s1, s2 = a.Phase3(r2), b.Phase3(r1); return outs(s1, s2) })
			step(func() []interface{} {
				var e1, e2 error
				g1, e1 = a.Phase4(pub, s1)
				g2, e2 = b.Phase4(pub2, s2)
				return outs(g1, g2, fmt.Sprint(e1, e2))
			})
			step(func() []interface{} { g, err := a.Phase5(s1, g1, g2); return outs(g, fmt.Sprint(err)) })
		})
	}},
	"mpc.ecdsa": {"k k h", "t t t", func(x []interface{}, p int) []interface{} {
		k1, k2, h := kk(x[0]), kk(x[1]), kb(x[2])
		return twice(func(step func(func() []interface{})) {
			a, b := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
			p1, p2 := k1.PubKey(), k2.PubKey()
			var r1, r2, s1, s2 *secp256k1.Scalar
			var e1, e2, g1, g2 *big.Int
			var q1, q2 *paillier.PubKey
			// random or changing the party: what they returned must last, a second call need not say the same
			once := 0
			step(func() []interface{} { return outs(a.Phase1(p2), b.Phase1(p1)) })
			step(func() []interface{} {
				if once == 0 {
					e1, q1, r1 = a.Phase2(h)
					e2, q2, r2 = b.Phase2(h)
					once = 1
				}
				return outs(e1, q1, r1, e2, q2, r2)
			})
			step(func() []interface{} { s1, s2 = a.Phase3(r2), b.Phase3(r1); return outs(s1, s2) })
			step(func() []interface{} {
				if once == 1 {
					g1, _ = a.Phase4(e2, q2, s1)
					g2, _ = b.Phase4(e1, q1, s2)
					once = 2
				}
				return outs(g1, g2)
			})
			step(func() []interface{} { g, err := a.Phase5(s1, g2); return outs(g, fmt.Sprint(err)) })
		})
	}},
}

func inputsOf(tx *xcore.Transaction) []A {
	n := 0
	b := tx.SerializeNoWitness()
	if len(b) > 4 {
		n = int(b[4])
	}
	return make([]A, n)
}

var aopNames = func() []string {
	var l []string
	for k := range aops {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

// aliasCell makes one of the caller's values.
func aliasCell(a A) cell {
	kind, n, b := a.str("k"), 0, []byte{}
	if a.has("b") {
		b = a.hex("b")
	}
	if a.has("spare") {
		n = a.int("spare")
	}
	c := cell{kind, nil, true}
	switch kind {
	case "b", "h", "q":
		c.v = spare(b, n)
	case "t":
		c.v = string(b)
	case "L":
		l := make([][]byte, 0, len(a.hexes("l"))+n)
		for _, x := range a.hexes("l") {
			l = append(l, spare(x, n))
		}
		c.v = l
	case "k":
		c.v = xcrypto.PrvKeyFromBytes(b)
	case "p":
		c.v = xcrypto.PrvKeyFromBytes(b).PubKey()
	case "n":
		c.v = new(big.Int).SetBytes(b)
	case "s":
		x, y := secp256k1.SECP256K1().ScalarBaseMult(b)
		c.v = secp256k1.NewScalar(x, y)
	case "H":
		c.v = bip32.NewHDKey(b)
	case "B":
		c.v = xvm.NewScriptBuilder().AddData(b)
	case "K":
		c.v = xvm.NewStack()
		c.v.(*xvm.Stack).PushByteArray(spare(b, n))
		c.v.(*xvm.Stack).PushByteArray(spare(b, n))
	case "w":
		c.v = xbase.NewBuffer()
		c.v.(*xbase.Buffer).WriteBytes(b)
	case "m":
		c.v = merkOf(a.hexes("l"))
	case "d":
		c.v = xcrypto.NewMerkle(a.hexes("l")).Proofs(a.hexes("l")[0])
	case "a":
		c.v = addrOf(a.obj("a"))
	case "f":
		s, err := xcore.ParseLockingScript(b)
		if err != nil {
			panic("harness: script")
		}
		c.v = s
	case "o":
		c.v = xcore.NewCoinBuilder().AddOutput(hx(sha(b)), 1, 100000, hx(b)).ToCoins()[0]
	case "x":
		tx := xcore.NewTransaction()
		for i, s := range a.hexes("l") {
			in, err := xcore.NewTxIn(sha(s), uint32(i), 1000, s, b)
			if err == nil {
				tx.AddInput(in)
			}
		}
		tx.AddOutput(xcore.NewTxOut(5, b))
		tx.AddOutput(xcore.NewTxOut(6, b))
		c.v = tx
	case "E":
		e := xvm.NewEngine()
		e.SetSigHashFn(func(ht byte) ([]byte, error) { return []byte{ht}, nil })
		e.SetSigVerifyFn(func(h, s, k []byte) error { return nil })
		c.v = e
	case "M":
		c.v = msgFrom(a.str("cmd"), a.obj("f"))
	case "P":
		c.v = aliasPaillier().pk
	case "S":
		c.v = aliasPaillier().sk
	case "c":
		v, err := aliasPaillier().pk.Encrypt(new(big.Int).SetBytes(b))
		if err != nil {
			panic(err)
		}
		c.v = v
	default:
		panic("harness: kind " + kind)
	}
	return c
}

type plPair struct {
	pk *paillier.PubKey
	sk *paillier.PrvKey
}

var plOne = make(chan *plPair, 1)

func aliasPaillier() *plPair {
	p := <-plOne
	if p == nil {
		pk, sk, err := paillier.GenerateKeyPair(1024)
		if err != nil {
			panic(err)
		}
		p = &plPair{pk, sk}
	}
	plOne <- p
	return p
}

func aliasWorld(A) World {
	var cells []cell
	marks := func() []string {
		l := []string{}
		for _, c := range cells {
			l = append(l, mark(c))
		}
		return l
	}
	return func(op string, a A) M {
		switch op {
		case "pool":
			for _, x := range a.objs("cells") {
				cells = append(cells, aliasCell(x))
			}
			return M{"cells": marks()}
		case "call":
			o, ok := aops[a.str("f")]
			if !ok {
				panic("harness: no operation " + a.str("f"))
			}
			ks := strings.Fields(o.in)
			var x []interface{}
			for k, i := range a.ints("args") {
				if cells[i-1].kind != ks[k] && !(ks[k] == "b" && cells[i-1].kind == "h") {
					panic("harness: kind of argument")
				}
				x = append(x, cells[i-1].v)
			}
			if len(x) != len(ks) {
				panic("harness: arguments")
			}
			got := o.f(x, a.int("p"))
			ks = strings.Fields(o.out)
			n := len(cells)
			for k, v := range got {
				cells = append(cells, cell{ks[k], v, false})
			}
			l := marks()
			return M{"ok": got != nil, "out": append([]string{}, l[n:]...), "cells": append([]string{}, l[:n]...)}
		case "edit": // the caller writes over bytes it holds
			if k := a.int("k"); k <= len(cells) { // there is nothing at k when the call refused
				overwrite(cells[k-1].v)
			}
			return M{"cells": marks()}
		case "drop": // the caller forgets what it got beyond the first n
			cells = cells[:a.int("n")]
			return M{"cells": marks()}
		}
		panic("harness: op " + op)
	}
}

// aliasPool: one or two values of every kind, slices with room behind them.
func aliasPool(r *rand.Rand) []M {
	var l []M
	b := func(k string, x []byte) { l = append(l, M{"k": k, "b": hx(x), "spare": pick(r, 0, 1, 8, 40)}) }
	p2 := xcrypto.PrvKeyFromBytes(rkey(r)).PubKey()
	k1 := xcrypto.PrvKeyFromBytes(rkey(r))
	h := rbytes(r, 32)
	sig, _ := xcrypto.EcdsaSign(k1, h)
	sch, _ := xcrypto.SchnorrSign(k1, h)
	mn, _ := bip39.NewMnemonic(rbytes(r, 16))
	lock1 := cat([]byte{0x76, 0xa9, 20}, hash160(k1.PubKey().SerializeCompressed()), []byte{0x88, 0xac})
	b("b", pick(r, rbytes(r, 20), rbytes(r, 32), lock1, k1.PubKey().SerializeCompressed(), p2.SerializeUncompressed()))
	b("b", pick(r, sig, sch, rbytes(r, r.Intn(80)), unhx("5152935387"), rawTx(r, 1, 1, pick(r, -1, 1), -1), []byte{5}))
	b("b", pick(r, lock1, rbytes(r, 20), unhx("5293"), []byte{}))
	long := rbytes(r, pick(r, 64, 70, 100, 200, 252))
	b("b", cat([]byte{byte(len(long))}, long))
	b("b", pick(r, rbytes(r, 300+r.Intn(300)), rawTx(r, 2, 2, pick(r, -1, 1), -1), cat([]byte{0x4d, 0, 2}, make([]byte, 512), []byte{0x51})))
	b("h", h)
	b("h", rbytes(r, 32))
	b("q", []byte{0, 1, 31, 5, 7, 9})
	b("t", []byte(xbase.Base58CheckEncode(rbytes(r, 20), 0)))
	b("t", []byte(pick(r, mn, "OP_DUP OP_1 OP_ADD", bip32.NewHDKey(rbytes(r, 16)).ToString(network.MainNet), addrOf(A{"t": "p2wpkh", "h": hx(rbytes(r, 20))}).ToString(network.MainNet), hx(rbytes(r, 32)))))
	list := func(k string, x [][]byte) {
		l = append(l, M{"k": k, "l": hxs(x), "b": hx(rbytes(r, 3)), "spare": pick(r, 0, 1, 4)})
	}
	list("L", [][]byte{k1.PubKey().SerializeCompressed(), pick(r, p2.SerializeCompressed(), p2.SerializeHybrid()), pick(r, p2.SerializeUncompressed(), k1.PubKey().SerializeHybrid(), rbytes(r, 33))})
	var leaves [][]byte
	for k := 1 + r.Intn(6); k > 0; k-- {
		leaves = append(leaves, rbytes(r, 32))
	}
	list("L", leaves)
	list("m", leaves)
	list("d", leaves)
	k1b := k1.Serialize()
	b("k", k1b)
	b("k", pick(r, rkey(r), k1b))
	b("p", pick(r, k1b, rkey(r)))
	b("p", rkey(r))
	b("n", rkey(r)[1:])
	b("n", pick(r, rbytes(r, 1+r.Intn(30)), k1b[1:]))
	b("s", rkey(r))
	b("s", rkey(r))
	b("H", rbytes(r, 16))
	b("B", rbytes(r, r.Intn(100)))
	b("K", rbytes(r, r.Intn(5)))
	b("w", rbytes(r, r.Intn(9)))
	l = append(l, M{"k": "a", "a": M{"t": pick(r, "p2pkh", "p2sh", "p2wpkh"), "h": hx(rbytes(r, 20))}})
	b("f", pick(r, lock1, cat([]byte{0, 20}, rbytes(r, 20)), cat([]byte{0xa9, 20}, rbytes(r, 20), []byte{0x87}), cat([]byte{0, 32}, rbytes(r, 32))))
	b("o", lock1)
	b("o", pick(r, lock1, cat([]byte{0, 20}, hash160(k1.PubKey().SerializeCompressed()))))
	list("x", [][]byte{lock1, cat([]byte{0, 20}, hash160(k1.PubKey().SerializeCompressed())), cat([]byte{0xa9, 20}, hash160(unhx("51")), []byte{0x87})})
	b("E", nil)
	m := norm(rmsg(r))
	l = append(l, M{"k": "M", "cmd": m.str("cmd"), "f": m.obj("f")})
	return l
}

func suiteC22(t *Rec) {
	bip39.SetWordList(words.English)
	plOne <- nil
	rerun(t, aliasWorld)
	t.Par(t.N(400, 5000), func(i int) {
		t.Run(fmt.Sprintf("mix/%d", i), M{"x": 0}, func(s *S) {
			r := s.R
			w := aliasWorld(nil)
			pool := aliasPool(r)
			heavy := i%6 == 0
			if heavy {
				for _, k := range []string{"P", "S", "c", "c"} {
					pool = append(pool, M{"k": k, "b": hx(rbytes(r, 1+r.Intn(9)))})
				}
			}
			if s.Call(w, "pool", M{"cells": pool}) == nil {
				return
			}
			var kinds []string
			for _, c := range pool {
				kinds = append(kinds, c["k"].(string))
			}
			own := len(kinds)
			var past []M
			for n := 0; n < 40; n++ {
				if r.Intn(6) == 0 {
					var can []int
					for j, x := range kinds {
						if strings.Contains("bhqLdns", x) {
							can = append(can, j+1)
						}
					}
					if s.Call(w, "edit", M{"k": pick(r, can...)}) == nil {
						return
					}
					continue
				}
				var a M
				if len(past) > 0 && r.Intn(3) == 0 {
					a = past[r.Intn(len(past))]
				} else {
					f := pick(r, aopNames...)
					if f == "mpc.ecdsa" && r.Intn(3) > 0 {
						continue
					}
					args := []int{}
					for _, k := range strings.Fields(aops[f].in) {
						var can []int
						for j, x := range kinds {
							if x == k || (k == "b" && x == "h") {
								can = append(can, j+1)
								if j >= own {
									can = append(can, j+1)
								}
							}
						}
						if can == nil {
							break
						}
						args = append(args, can[r.Intn(len(can))])
					}
					if len(args) != len(strings.Fields(aops[f].in)) {
						continue
					}
					a = M{"f": f, "args": args, "p": r.Intn(40)}
				}
				res := s.Call(w, "call", a)
				if res == nil {
					return
				}
				past = append(past, a)
				ks := strings.Fields(aops[a["f"].(string)].out)
				for k := range res["out"].([]string) {
					kinds = append(kinds, ks[k])
				}
				if len(kinds) > own+40 {
					kinds = kinds[:own+20]
					keep := past[:0]
					for _, p := range past {
						fits := true
						for _, j := range p["args"].([]int) {
							fits = fits && j <= len(kinds)
						}
						if fits {
							keep = append(keep, p)
						}
					}
					past = keep
					if s.Call(w, "drop", M{"n": len(kinds)}) == nil {
						return
					}
				}
			}
		})
	})
}
