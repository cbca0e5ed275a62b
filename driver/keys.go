package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { suites["C21"] = suiteC21 }

func h32(x *big.Int) string { return fmt.Sprintf("%064x", x) }

func showPub(p *xcrypto.PubKey) M {
	m := M{"x": h32(p.X), "y": h32(p.Y)}
	if p.X.Sign() != 0 || p.Y.Sign() != 0 {
		m["c"], m["s"], m["u"], m["h"] = hx(p.SerializeCompressed()), hx(p.Serialize()), hx(p.SerializeUncompressed()), hx(p.SerializeHybrid())
		m["id"] = hx(p.Hash160())
	}
	return m
}
func showPrv(k *xcrypto.PrvKey) M { return M{"d": hx(k.Serialize()), "pub": showPub(k.PubKey())} }

func keysWorld(A) World {
	curve := secp256k1.SECP256K1()
	prv := make([]*xcrypto.PrvKey, 5)
	pub := make([]*xcrypto.PubKey, 5)
	for i := 1; i < 5; i++ {
		prv[i] = xcrypto.PrvKeyFromBytes([]byte{1})
		pub[i] = xcrypto.PrvKeyFromBytes([]byte{1}).PubKey()
	}
	return func(op string, a A) M {
		setPub := func(x, y *big.Int) M {
			p := &xcrypto.PubKey{Curve: curve, X: x, Y: y}
			pub[a.int("i")] = p
			return showPub(p)
		}
		switch op {
		case "prv":
			b := spare(a.hex("k"), 4)
			prv[a.int("i")] = xcrypto.PrvKeyFromBytes(b)
			for i := range b {
				b[i] ^= 0x55
			}
			return showPrv(prv[a.int("i")])
		case "pub":
			b := spare(a.hex("b"), 4)
			p, err := xcrypto.PubKeyFromBytes(b)
			same := intact(b, a.hex("b"), 4)
			if err != nil {
				return M{"ok": false, "same": same}
			}
			pub[a.int("i")] = p
			return M{"ok": true, "k": showPub(p), "same": same}
		case "unsec":
			x, y := secp256k1.SecUnmarshal(curve, a.hex("b"))
			if x == nil {
				return M{"ok": false}
			}
			return M{"ok": true, "k": showPub(&xcrypto.PubKey{Curve: curve, X: x, Y: y})}
		case "pubof":
			pub[a.int("i")] = prv[a.int("j")].PubKey()
			return showPub(pub[a.int("i")])
		case "prvadd":
			prv[a.int("i")] = prv[a.int("j")].Add(a.hex("n"))
			return showPrv(prv[a.int("i")])
		case "prvaddreg":
			prv[a.int("i")] = prv[a.int("j")].Add(prv[a.int("k")].Serialize())
			return showPrv(prv[a.int("i")])
		case "pubadd":
			pub[a.int("i")] = pub[a.int("j")].Add(pub[a.int("k")])
			return showPub(pub[a.int("i")])
		case "curveadd":
			p, q := pub[a.int("j")], pub[a.int("k")]
			return setPub(curve.Add(p.X, p.Y, q.X, q.Y))
		case "scalaradd":
			p, q := pub[a.int("j")], pub[a.int("k")]
			s := secp256k1.NewScalar(p.X, p.Y).Add(curve, secp256k1.NewScalar(q.X, q.Y))
			return setPub(s.X, s.Y)
		case "dbl":
			p := pub[a.int("j")]
			return setPub(curve.Double(p.X, p.Y))
		case "mul":
			p := pub[a.int("j")]
			return setPub(curve.ScalarMult(p.X, p.Y, a.hex("k")))
		case "base":
			return setPub(curve.ScalarBaseMult(a.hex("k")))
		case "on":
			return M{"on": curve.IsOnCurve(new(big.Int).SetBytes(a.hex("x")), new(big.Int).SetBytes(a.hex("y")))}
		case "params":
			p := curve.Params()
			return M{"p": h32(p.P), "n": h32(p.N), "b": p.B.Int64(), "g": showPub(&xcrypto.PubKey{Curve: curve, X: p.Gx, Y: p.Gy}), "bits": p.BitSize}
		case "show":
			ps, qs := []M{}, []M{}
			for i := 1; i < 5; i++ {
				ps, qs = append(ps, showPrv(prv[i])), append(qs, showPub(pub[i]))
			}
			return M{"prv": ps, "pub": qs}
		}
		panic("harness: unknown operation " + op)
	}
}

var secN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var secP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

// rscalar is a private key in 1..N-1, often near an edge.
func rscalar(r *rand.Rand) *big.Int {
	x := new(big.Int)
	switch r.Intn(9) {
	case 8:
		x = rareScalar(r)
	case 0:
		x.SetInt64(int64(1 + r.Intn(5)))
	case 1:
		x.Sub(secN, big.NewInt(int64(1+r.Intn(5))))
	case 2:
		x.Lsh(big.NewInt(1), uint(r.Intn(256)))
	case 3:
		x.SetBytes(rbytes(r, 1+r.Intn(31)))
	case 4:
		x.Rsh(secN, 1)
		x.Add(x, big.NewInt(int64(r.Intn(3))))
	default:
		x.SetBytes(rbytes(r, 32))
	}
	x.Mod(x, secN)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	return x
}

// rkey is a private key of 32 bytes.
func rkey(r *rand.Rand) []byte {
	b := make([]byte, 32)
	rscalar(r).FillBytes(b)
	return b
}
func kbytes(r *rand.Rand) []byte {
	x := rscalar(r)
	if r.Intn(2) == 0 {
		return x.Bytes()
	}
	return x.FillBytes(make([]byte, 32))
}

// rpoint is an encoded point or something close to one.
func rpoint(r *rand.Rand) []byte {
	p := xcrypto.PrvKeyFromBytes(kbytes(r)).PubKey()
	b := pick(r, p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid())
	switch r.Intn(8) {
	case 0:
		b[0] = byte(pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, r.Intn(256)))
	case 1:
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	case 2:
		b = b[:r.Intn(len(b)+1)]
	case 3:
		b = append(b, rbytes(r, 1+r.Intn(33))...)
	case 4: // any x
		b = append([]byte{byte(2 + r.Intn(2))}, rbytes(r, 32)...)
		if r.Intn(3) == 0 {
			copy(b[1:], make([]byte, 31))
		}
	case 5: // x + P where that still fits
		x := big.NewInt(int64(r.Intn(60)))
		x.Add(x, secP)
		b = append([]byte{byte(2 + r.Intn(2))}, x.FillBytes(make([]byte, 32))...)
	}
	return b
}

func suiteC21(t *Rec) {
	replay(t, keysWorld)
	for k := 0; k < t.N(120, 2500); k++ {
		t.Run(fmt.Sprintf("keys/%d", k), M{}, func(s *S) {
			r, w := s.R, keysWorld(nil)
			reg := func() int { return 1 + r.Intn(4) }
			s.Call(w, "params", M{})
			for i := 0; i < 14; i++ {
				switch r.Intn(14) {
				case 0, 1:
					s.Call(w, "prv", M{"i": reg(), "k": hx(kbytes(r))})
				case 2, 3:
					s.Call(w, "pub", M{"i": reg(), "b": hx(rpoint(r))})
				case 4:
					s.Call(w, "pubof", M{"i": reg(), "j": reg()})
				case 5:
					n := kbytes(r)
					if r.Intn(3) == 0 {
						n = rbytes(r, r.Intn(33))
					}
					s.Call(w, "prvadd", M{"i": reg(), "j": reg(), "n": hx(n)})
				case 6:
					s.Call(w, "prvaddreg", M{"i": reg(), "j": reg(), "k": reg()})
				case 7:
					s.Call(w, "pubadd", M{"i": reg(), "j": reg(), "k": reg()})
				case 8:
					s.Call(w, pick(r, "curveadd", "scalaradd"), M{"i": reg(), "j": reg(), "k": reg()})
				case 9:
					s.Call(w, "dbl", M{"i": reg(), "j": reg()})
				case 10:
					n := kbytes(r)
					if r.Intn(4) == 0 {
						n = pick(r, secN.Bytes(), []byte{}, []byte{0}, rbytes(r, 32), rbytes(r, 40), new(big.Int).Add(secN, big.NewInt(1)).Bytes())
					}
					s.Call(w, "mul", M{"i": reg(), "j": reg(), "k": hx(n)})
				case 11:
					s.Call(w, "base", M{"i": reg(), "k": hx(kbytes(r))})
				case 12:
					p := xcrypto.PrvKeyFromBytes(kbytes(r)).PubKey()
					x, y := p.X.Bytes(), p.Y.Bytes()
					if r.Intn(2) == 0 && len(x) > 0 {
						x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
					}
					if new(big.Int).SetBytes(x).Cmp(secP) < 0 {
						s.Call(w, "on", M{"x": hx(x), "y": hx(y)})
					}
				default:
					s.Call(w, "unsec", M{"b": hx(append([]byte{byte(pick(r, 2, 3, 2, 3, 4, 0))}, rbytes(r, pick(r, 32, 32, 32, 31, 33, 0))...))})
				}
			}
			s.Call(w, "show", M{})
		})
	}
}
