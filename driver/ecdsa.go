package main

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() {
	suites["C12"] = suiteC12
	suites["C13"] = suiteC13
}

func bigDec(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("harness: not a number: " + s)
	}
	return x
}

// pubArg is the key a verifier is given: "" is the signer's own.
func pubArg(k *xcrypto.PrvKey, a A) *xcrypto.PubKey {
	if a.str("pub") == "" {
		return k.PubKey()
	}
	p, err := xcrypto.PubKeyFromBytes(a.hex("pub"))
	if err != nil {
		panic("harness: key: " + err.Error())
	}
	return p
}

func ecdsaWorld(init A) World {
	key := xcrypto.PrvKeyFromBytes(init.hex("d"))
	return func(op string, a A) M {
		switch op {
		case "key":
			key = xcrypto.PrvKeyFromBytes(a.hex("d"))
			return M{"ok": true}
		case "sign":
			h := spare(a.hex("h"), 8)
			g, err := xcrypto.EcdsaSign(key, h)
			if err != nil {
				return M{"ok": false}
			}
			return M{"ok": true, "sig": hx(g), "same": intact(h, a.hex("h"), 8)}
		case "rawsign":
			r, s, err := xecdsa.Sign((*ecdsa.PrivateKey)(key), a.hex("h"))
			if err != nil {
				return M{"ok": false}
			}
			return M{"ok": true, "r": r.String(), "s": s.String()}
		case "nonce":
			q, x := new(big.Int).Set(secN), new(big.Int).Set(key.D)
			return M{"k": xecdsa.NonceRFC6979(q, x, a.hex("h")).String()}
		case "verify":
			p := pubArg(key, a)
			h, g := spare(a.hex("h"), 8), spare(a.hex("sig"), 8)
			before := showPub(p)["x"]
			err := xcrypto.EcdsaVerify(p, h, g)
			return M{"ok": err == nil, "same": intact(h, a.hex("h"), 8) && intact(g, a.hex("sig"), 8) && before == showPub(p)["x"]}
		case "rawverify":
			p := pubArg(key, a)
			h, r, s := spare(a.hex("h"), 8), bigDec(a.str("r")), bigDec(a.str("s"))
			ok := xecdsa.Verify((*ecdsa.PublicKey)(p), h, r, s)
			return M{"ok": ok, "same": intact(h, a.hex("h"), 8) && r.String() == a.str("r") && s.String() == a.str("s")}
		case "ser":
			b, err := (&xcrypto.SignatureEcdsa{R: bigDec(a.str("r")), S: bigDec(a.str("s"))}).Serialize()
			return okm(err, M{"sig": hx(b)})
		case "des":
			b := spare(a.hex("sig"), 8)
			g := xcrypto.NewSignatureEcdsa()
			if err := g.Deserialize(b); err != nil {
				return M{"ok": false, "same": intact(b, a.hex("sig"), 8)}
			}
			return M{"ok": true, "r": g.R.String(), "s": g.S.String(), "same": intact(b, a.hex("sig"), 8)}
		}
		panic("harness: unknown operation " + op)
	}
}

func rhash(r *rand.Rand) []byte {
	switch r.Intn(9) {
	case 8: // zeros at one end
		b := rbytes(r, 32)
		n := 1 + r.Intn(31)
		if r.Intn(2) == 0 {
			copy(b, make([]byte, n))
		} else {
			copy(b[n:], make([]byte, 32-n))
		}
		return b
	case 0:
		return rbytes(r, 1+r.Intn(69))
	case 1:
		return make([]byte, 32)
	case 2:
		x := new(big.Int).Add(secN, big.NewInt(int64(r.Intn(5)-2)))
		return x.FillBytes(make([]byte, 32))
	case 3:
		return bytesOf(255, 32)
	case 4: // a small number
		b := make([]byte, 32)
		b[31] = byte(r.Intn(4))
		return b
	}
	return rbytes(r, 32)
}
func bytesOf(v byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v
	}
	return b
}
func rpub(r *rand.Rand) string {
	return hx(xcrypto.PrvKeyFromBytes(kbytes(r)).PubKey().SerializeCompressed())
}

// nearBig is x or a value related to it.
func nearBig(r *rand.Rand, x *big.Int) *big.Int {
	y := new(big.Int).Set(x)
	switch r.Intn(9) {
	case 0:
		y.Sub(secN, y)
	case 1:
		y.Add(y, secN)
	case 2:
		y.Neg(y)
	case 3:
		y.Xor(y, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(257))))
	case 4:
		y.SetInt64(int64(r.Intn(4)))
	case 5:
		y.Set(pick(r, secN, secP))
	case 6:
		y.SetBytes(rbytes(r, 1+r.Intn(40)))
	}
	return y
}

func suiteC12(t *Rec) {
	replay(t, ecdsaWorld)
	t.Run("rare", M{"d": rareEcdsaKey}, rareEcdsaSession)
	for k := 0; k < t.N(150, 3000); k++ {
		t.Run(fmt.Sprintf("ecdsa/%d", k), M{"d": hx(rkey(rand.New(rand.NewSource(int64(k)*7919 + t.seed))))}, func(s *S) {
			r, w := s.R, ecdsaWorld(norm(s.Init))
			var sig []byte
			h := rhash(r)
			for i := 0; i < 10; i++ {
				if i == 0 || r.Intn(6) == 0 {
					if r.Intn(3) == 0 {
						s.Call(w, "key", M{"d": hx(kbytes(r)), "pub": ""})
					}
					h = rhash(r)
					o := s.Call(w, "sign", M{"pub": "", "h": hx(h)})
					sig = unhx(o["sig"].(string))
					continue
				}
				g := xcrypto.NewSignatureEcdsa()
				if g.Deserialize(sig) != nil {
					break
				}
				switch r.Intn(9) {
				case 0, 1:
					s.Call(w, "verify", M{"pub": "", "h": hx(h), "sig": hx(sig)})
				case 2:
					s.Call(w, "verify", M{"pub": "", "h": hx(mangle(r, h)), "sig": hx(sig)})
				case 3:
					s.Call(w, "verify", M{"pub": pick(r, "", rpub(r)), "h": hx(h), "sig": hx(mangle(r, sig))})
				case 4:
					s.Call(w, "rawverify", M{"pub": pick(r, "", "", rpub(r)), "h": hx(h), "r": nearBig(r, g.R).String(), "s": nearBig(r, g.S).String()})
				case 5:
					s.Call(w, "nonce", M{"pub": "", "h": hx(rhash(r))})
				case 6:
					s.Call(w, "rawsign", M{"pub": "", "h": hx(rhash(r))})
				case 7:
					o := s.Call(w, "ser", M{"pub": "", "r": nearBig(r, g.R).String(), "s": nearBig(r, g.S).String()})
					if b, ok := o["sig"].(string); ok {
						s.Call(w, "verify", M{"pub": "", "h": hx(h), "sig": b})
						s.Call(w, "des", M{"pub": "", "sig": hx(mangle(r, unhx(b)))})
					}
				default:
					s.Call(w, "des", M{"pub": "", "sig": hx(mangle(r, sig))})
				}
			}
		})
	}
}

// rareEcdsaSession signs and verifies where numbers are short.
func rareEcdsaSession(s *S) {
	r, w := s.R, ecdsaWorld(norm(s.Init))
	for _, i := range rareEcdsa {
		h := rareMsg(i)
		s.Call(w, "nonce", M{"pub": "", "h": h})
		s.Call(w, "rawsign", M{"pub": "", "h": h})
		if o := s.Call(w, "sign", M{"pub": "", "h": h}); o["ok"] == true {
			s.Call(w, "verify", M{"pub": "", "h": h, "sig": o["sig"]})
			s.Call(w, "des", M{"pub": "", "sig": o["sig"]})
			s.Call(w, "verify", M{"pub": "", "h": h, "sig": hx(mangle(r, unhx(o["sig"].(string))))})
		}
	}
	// any hash e and any s have a key d for a given nonce k: s*k = e + r*d
	for i := 0; i < 40; i++ {
		k := rareScalar(r)
		rr := keyOf(k.Bytes()).PubKey().X
		g, e := new(big.Int), new(big.Int)
		for g.Sign() == 0 || g.Cmp(new(big.Int).Rsh(secN, 1)) > 0 {
			g = pick(r, big.NewInt(int64(1+r.Intn(3))), new(big.Int).Rsh(secN, uint(1+r.Intn(255))), rscalar(r), new(big.Int).SetBytes(rbytes(r, 1+r.Intn(32))))
		}
		for e.SetBytes(rhash(r)); e.Cmp(secN) >= 0; {
			e.Rsh(e, 8)
		}
		d := new(big.Int).Mul(g, k)
		d.Sub(d, e).Mul(d, new(big.Int).ModInverse(rr, secN)).Mod(d, secN)
		if d.Sign() == 0 {
			continue
		}
		h := hx(e.FillBytes(make([]byte, 32)))
		p := hx(keyOf(d.Bytes()).PubKey().SerializeCompressed())
		s.Call(w, "rawverify", M{"pub": p, "h": h, "r": rr.String(), "s": g.String()})
		if o := s.Call(w, "ser", M{"pub": "", "r": rr.String(), "s": g.String()}); o["ok"] == true {
			s.Call(w, "verify", M{"pub": p, "h": h, "sig": o["sig"]})
			s.Call(w, "verify", M{"pub": p, "h": h, "sig": hx(mangle(r, unhx(o["sig"].(string))))})
		}
	}
}

func schnorrWorld(init A) World {
	key := xcrypto.PrvKeyFromBytes(init.hex("d"))
	return func(op string, a A) M {
		switch op {
		case "key":
			key = xcrypto.PrvKeyFromBytes(a.hex("d"))
			return M{"ok": true}
		case "sign":
			m := spare(a.hex("m"), 8)
			g, err := xcrypto.SchnorrSign(key, m)
			if err != nil {
				return M{"ok": false}
			}
			return M{"ok": true, "sig": hx(g), "same": intact(m, a.hex("m"), 8)}
		case "verify":
			p := pubArg(key, a)
			m, g := spare(a.hex("m"), 8), spare(a.hex("sig"), 8)
			before := showPub(p)["x"]
			err := xcrypto.SchnorrVerify(p, m, g)
			return M{"ok": err == nil, "same": intact(m, a.hex("m"), 8) && intact(g, a.hex("sig"), 8) && before == showPub(p)["x"]}
		case "rawverify":
			p := pubArg(key, a)
			m, r, s := spare(a.hex("m"), 8), bigDec(a.str("r")), bigDec(a.str("s"))
			ok := schnorr.Verify((*ecdsa.PublicKey)(p), m, r, s)
			return M{"ok": ok, "same": intact(m, a.hex("m"), 8) && r.String() == a.str("r") && s.String() == a.str("s")}
		case "des":
			g := xcrypto.NewSignatureSchnorr()
			if err := g.Deserialize(a.hex("sig")); err != nil {
				return M{"ok": false}
			}
			b, err := g.Serialize()
			if err != nil {
				return M{"ok": true, "again": "error"}
			}
			return M{"ok": true, "r": g.R.String(), "s": g.S.String(), "again": hx(b)}
		case "parts":
			curve := secp256k1.SECP256K1()
			d := spare(schnorr.IntToByte(key.D), 40)
			m := spare(a.hex("m"), 8)
			k0, err := schnorr.GetK0(m, d, curve.Params().N)
			if err != nil {
				return M{"k0": "error"}
			}
			k0s := k0.String()
			rx, ry := curve.ScalarBaseMult(k0.Bytes())
			rX := spare(schnorr.IntToByte(rx), 80)
			k := schnorr.GetK(curve, ry, k0)
			ks := k.String()
			k.SetInt64(5)
			e := schnorr.GetE(curve, m, key.PubKey().X, key.PubKey().Y, rX)
			same := k0.String() == k0s && intact(d, schnorr.IntToByte(key.D), 40) && intact(m, a.hex("m"), 8) && intact(rX, schnorr.IntToByte(rx), 80)
			return M{"k0": k0s, "k": ks, "e": e.String(), "same": same}
		}
		panic("harness: unknown operation " + op)
	}
}

func suiteC13(t *Rec) {
	replay(t, schnorrWorld)
	t.Run("rare", M{"d": rareSchnorrKey}, rareSchnorrSession)
	// messages of any length
	for _, n := range []int{0, 1, 31, 33, 64, 119, 120, 255, 256, 257, 1000, 4095, 4096, 4097, 9000, t.N(20000, 70000)} {
		t.Run(fmt.Sprintf("long/%d", n), M{"d": rareSchnorrKey}, func(s *S) {
			r, w := s.R, schnorrWorld(norm(s.Init))
			m := rbytes(r, n)
			s.Call(w, "parts", M{"pub": "", "m": hx(m)})
			if o := s.Call(w, "sign", M{"pub": "", "m": hx(m)}); o["ok"] == true {
				s.Call(w, "verify", M{"pub": "", "m": hx(m), "sig": o["sig"]})
				s.Call(w, "verify", M{"pub": "", "m": hx(append(m, 0)), "sig": o["sig"]})
				if n > 0 {
					s.Call(w, "verify", M{"pub": "", "m": hx(m[:n-1]), "sig": o["sig"]})
					m[n-1] ^= 1
					s.Call(w, "verify", M{"pub": "", "m": hx(m), "sig": o["sig"]})
				}
			}
		})
	}
	for k := 0; k < t.N(150, 3000); k++ {
		t.Run(fmt.Sprintf("schnorr/%d", k), M{"d": hx(rkey(rand.New(rand.NewSource(int64(k)*104729 + t.seed))))}, func(s *S) {
			r, w := s.R, schnorrWorld(norm(s.Init))
			var sig, m []byte
			for i := 0; i < 10; i++ {
				if i == 0 || r.Intn(5) == 0 {
					if r.Intn(3) == 0 {
						s.Call(w, "key", M{"d": hx(kbytes(r)), "pub": ""})
					}
					m = rhash(r)
					o := s.Call(w, "sign", M{"pub": "", "m": hx(m)})
					sig = unhx(o["sig"].(string))
					continue
				}
				if len(sig) != 64 {
					break
				}
				R, S := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
				switch r.Intn(7) {
				case 0, 1:
					s.Call(w, "verify", M{"pub": "", "m": hx(m), "sig": hx(sig)})
				case 2:
					s.Call(w, "verify", M{"pub": "", "m": hx(mangle(r, m)), "sig": hx(sig)})
				case 3:
					s.Call(w, "verify", M{"pub": pick(r, "", rpub(r)), "m": hx(m), "sig": hx(mangle(r, sig))})
				case 4:
					s.Call(w, "rawverify", M{"pub": pick(r, "", "", rpub(r)), "m": hx(m), "r": nearBig(r, R).String(), "s": nearBig(r, S).String()})
				case 5:
					s.Call(w, "parts", M{"pub": "", "m": hx(rhash(r))})
				default:
					s.Call(w, "des", M{"pub": "", "sig": hx(pick(r, sig, mangle(r, sig), rbytes(r, 64), rbytes(r, r.Intn(130)), make([]byte, 64)))})
				}
			}
		})
	}
}

// rareSchnorrSession signs and verifies where numbers are short.
func rareSchnorrSession(s *S) {
	r, w := s.R, schnorrWorld(norm(s.Init))
	for _, i := range rareSchnorr {
		m := rareMsg(i)
		s.Call(w, "parts", M{"pub": "", "m": m})
		if o := s.Call(w, "sign", M{"pub": "", "m": m}); o["ok"] == true {
			s.Call(w, "verify", M{"pub": "", "m": m, "sig": o["sig"]})
			s.Call(w, "des", M{"pub": "", "sig": o["sig"]})
			s.Call(w, "verify", M{"pub": "", "m": m, "sig": hx(mangle(r, unhx(o["sig"].(string))))})
		}
	}
	for i := 0; i < 25; i++ { // a signature with a chosen nonce
		d, k, m := rscalar(r), rareScalar(r), rhash(r)
		R, p := keyOf(k.Bytes()).PubKey(), keyOf(d.Bytes()).PubKey()
		if big.Jacobi(R.Y, secP) != 1 {
			k.Sub(secN, k)
		}
		rx := R.X.FillBytes(make([]byte, 32))
		e := new(big.Int).SetBytes(sha(append(append(append([]byte{}, rx...), p.SerializeCompressed()...), m...)))
		g := e.Mul(e, d)
		g.Add(g, k).Mod(g, secN)
		s.Call(w, "verify", M{"pub": hx(p.SerializeCompressed()), "m": hx(m), "sig": hx(append(rx, g.FillBytes(make([]byte, 32))...))})
		s.Call(w, "rawverify", M{"pub": hx(p.SerializeCompressed()), "m": hx(m), "r": R.X.String(), "s": nearBig(r, g).String()})
	}
}
