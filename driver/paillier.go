package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto/paillier"
)

func init() { suites["C16"] = suiteC16 }

type plKey struct {
	pk *paillier.PubKey
	sk *paillier.PrvKey
	n  *big.Int
}

func paillierWorld(A) World {
	var keys []plKey
	type handle struct {
		ok bool
		k  int
		c  *big.Int
	}
	var hs []handle
	return func(op string, a A) M {
		if op == "gen" {
			pk, sk, err := paillier.GenerateKeyPair(a.int("bits"))
			if err != nil {
				return M{"ok": false}
			}
			keys = append(keys, plKey{pk, sk, new(big.Int).Set(pk.N)})
			return M{"ok": true, "n": pk.N.String(), "nn": pk.NN.String(), "g": pk.G.String()}
		}
		ki := a.int("k")
		key := keys[ki-1]
		pk, n := key.pk, key.n
		nn := new(big.Int).Mul(n, n)
		ct := func(f string) *big.Int {
			x := a.obj(f)
			i := x.int("i")
			switch t := x.str("t"); t {
			case "h", "over", "under":
				h := hs[i-1]
				if !h.ok {
					return nil
				}
				c := new(big.Int).Set(h.c)
				if t == "over" {
					c.Add(c, nn)
				}
				if t == "under" {
					c.Sub(c, nn)
				}
				return c
			case "nil":
				return nil
			case "zero":
				return big.NewInt(0)
			case "neg":
				return big.NewInt(-1)
			case "one":
				return big.NewInt(1)
			case "nn":
				return new(big.Int).Set(nn)
			case "nn1":
				return new(big.Int).Sub(nn, big.NewInt(1))
			case "n":
				return new(big.Int).Set(n)
			case "g":
				return new(big.Int).Add(n, big.NewInt(1))
			case "raw":
				return bigDec(x.str("v"))
			}
			panic("harness: ciphertext")
		}
		plain := func() *big.Int {
			x := a.obj("m")
			if x.bool("nil") {
				return nil
			}
			return new(big.Int).Add(new(big.Int).Mul(big.NewInt(int64(x.int("k"))), n), bigDec(x.str("o")))
		}
		var args []*big.Int
		var was []string
		arg := func(b *big.Int) *big.Int {
			if b != nil {
				args = append(args, b)
				was = append(was, b.String())
			}
			return b
		}
		kept := func() bool {
			same := pk.N.Cmp(n) == 0 && pk.NN.Cmp(new(big.Int).Mul(n, n)) == 0 && pk.G.Cmp(new(big.Int).Add(n, big.NewInt(1))) == 0
			for i := range args {
				same = same && args[i].String() == was[i]
				// the numbers belong to the caller: what was returned must not change with them
				for j := range args[i].Bits() {
					args[i].Bits()[j] ^= 0x55
				}
			}
			return same
		}
		made := func(c *big.Int, err error) M {
			same := kept()
			if err != nil || c == nil {
				hs = append(hs, handle{false, ki, nil})
				return M{"ok": false, "same": same}
			}
			hs = append(hs, handle{true, ki, new(big.Int).Set(c)})
			m, err := key.sk.Decrypt(c)
			if err != nil {
				return M{"ok": true, "c": c.String(), "m": "-1", "same": same}
			}
			return M{"ok": true, "c": c.String(), "m": m.String(), "same": same}
		}
		switch op {
		case "enc":
			return made(pk.Encrypt(arg(plain())))
		case "dec":
			m, err := key.sk.Decrypt(arg(ct("c")))
			same := kept()
			if err != nil {
				return M{"ok": false, "same": same}
			}
			return M{"ok": true, "m": m.String(), "same": same}
		case "add":
			if same(a) {
				c := arg(ct("c"))
				return made(pk.Add(c, c))
			}
			return made(pk.Add(arg(ct("c")), arg(ct("d"))))
		case "sub":
			if same(a) {
				c := arg(ct("c"))
				return made(pk.Sub(c, c), nil)
			}
			return made(pk.Sub(arg(ct("c")), arg(ct("d"))), nil)
		case "addp":
			return made(pk.AddPlaintext(arg(ct("c")), arg(plain())))
		case "mulp":
			return made(pk.MultPlaintext(arg(ct("c")), arg(plain())))
		case "divp":
			return made(pk.DivPlaintext(arg(ct("c")), arg(plain())))
		}
		panic("harness: unknown operation " + op)
	}
}

// same says that both ciphertexts are one and the same number.
func same(a A) bool {
	c, d := a.obj("c"), a.obj("d")
	return c.str("t") == "h" && d.str("t") == "h" && c.int("i") == d.int("i")
}

func suiteC16(t *Rec) {
	rerun(t, paillierWorld)
	bits := []int{10, 10, 11, 12, 13, 14, 16, 18, 20, 22, 30, 32, 63, 64, 65, 128, 256, 512}
	for k := 0; k < t.N(120, 1500); k++ {
		t.Run(fmt.Sprintf("paillier/%d", k), M{}, func(s *S) {
			r, w := s.R, paillierWorld(nil)
			nk := 1 + r.Intn(2)
			for i := 0; i < nk; i++ {
				b := pick(r, bits...)
				if k%40 == 0 {
					b = pick(r, 1024, 1536, 2048)
				}
				s.Call(w, "gen", M{"bits": b})
			}
			if r.Intn(4) == 0 {
				s.Call(w, "gen", M{"bits": r.Intn(10) - r.Intn(5)})
			}
			n := 0
			plain := func() M {
				switch r.Intn(8) {
				case 0:
					return M{"nil": false, "k": r.Intn(4) - 1, "o": i64s(int64(r.Intn(5) - 2))}
				case 1:
					return M{"nil": false, "k": r.Intn(100000) - 1000, "o": i64s(r.Int63() - r.Int63())}
				case 2:
					return M{"nil": false, "k": 1, "o": i64s(-int64(1 + r.Intn(400)))}
				case 4:
					return M{"nil": false, "k": 0, "o": new(big.Int).SetBytes(rbytes(r, 1+r.Intn(r.Intn(500)+1))).String()}
				case 3:
					if r.Intn(4) == 0 {
						return M{"nil": true, "k": 0, "o": "0"}
					}
				}
				return M{"nil": false, "k": 0, "o": i64s(int64(r.Intn(500)))}
			}
			ct := func() M {
				if n > 0 && r.Intn(8) != 0 {
					return M{"t": pick(r, "h", "h", "h", "h", "h", "h", "h", "over", "under"), "i": 1 + r.Intn(n)}
				}
				return M{"t": pick(r, "nil", "zero", "neg", "one", "nn", "nn1", "n", "g", "raw"), "i": 1, "v": i64s(int64(r.Intn(700)))}
			}
			for i := 0; i < 25; i++ {
				ki := 1 + r.Intn(nk)
				op := pick(r, "enc", "enc", "add", "sub", "addp", "mulp", "divp", "dec")
				if n == 0 {
					op = "enc"
				}
				x, y := ct(), ct()
				if r.Intn(5) == 0 {
					y = x
				}
				if op == "enc" || op == "dec" || op == "addp" || op == "mulp" || op == "divp" {
					y = M{"t": "nil", "i": 1, "v": "0"}
				}
				s.Call(w, op, M{"k": ki, "c": x, "d": y, "m": plain()})
				if op != "dec" {
					n++
				}
			}
		})
	}
	// a public key that travelled as JSON
	t.Run("json", M{}, func(s *S) {
		pk, sk, err := paillier.GenerateKeyPair(64)
		if err != nil {
			panic(err)
		}
		var got paillier.PubKey
		b, _ := json.Marshal(pk)
		if err := json.Unmarshal(b, &got); err != nil {
			panic(err)
		}
		c, err := got.Encrypt(big.NewInt(42))
		if err != nil {
			panic(err)
		}
		s.Do("gen", M{"bits": 64}, func() M {
			return M{"ok": true, "n": got.N.String(), "nn": got.NN.String(), "g": got.G.String()}
		})
		s.Do("enc", M{"k": 1, "m": M{"nil": false, "k": 0, "o": "42"}, "c": M{"t": "nil", "i": 1}, "d": M{"t": "nil", "i": 1}}, func() M {
			m, _ := sk.Decrypt(c)
			return M{"ok": true, "c": c.String(), "m": m.String(), "same": true}
		})
	})
}
