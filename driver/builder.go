package main

import (
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xerror"
)

func init() { suites["C08"] = suiteC08 }

func addrOf(a A) xcore.Address {
	h := a.hex("h")
	switch a.str("t") {
	case "p2pkh":
		return xcore.NewPayToPubKeyHashAddress(h)
	case "p2sh":
		return xcore.NewPayToScriptHashAddress(h)
	case "p2wpkh":
		return xcore.NewPayToWitnessV0PubKeyHashAddress(h)
	case "p2wsh":
		return xcore.NewPayToWitnessV0ScriptHashAddress(h)
	}
	panic("harness: address type")
}

func errNum(err error) int {
	if e, ok := err.(*xerror.Error); ok && e.Num >= 5101 && e.Num <= 5107 {
		return e.Num
	}
	return 0
}

func builderWorld(A) World {
	b := xcore.NewTransactionBuilder()
	coins := xcore.NewCoinBuilder()
	nth := 0
	var redeems, datas [][2][]byte // what the builder was given, and a copy
	keep := func(l *[][2][]byte, d []byte) []byte {
		*l = append(*l, [2][]byte{d, append([]byte{}, d...)})
		return d
	}
	return func(op string, a A) M {
		x := M{"x": 0}
		switch op {
		case "coin":
			coins.AddOutput(a.str("id"), uint32(a.u64("n")), a.u64("v"), a.str("script"))
			b.AddCoin(coins.ToCoins()[nth])
			nth++
		case "keys":
			var ks []*xcrypto.PrvKey
			for _, k := range a.hexes("keys") {
				ks = append(ks, xcrypto.PrvKeyFromBytes(k))
			}
			b.AddKeys(ks...)
		case "to":
			b.To(addrOf(a), a.u64("v"))
		case "redeem":
			b.SetRedeemScript(keep(&redeems, spare(a.hex("b"), 8)))
		case "uncomp":
			b.SetPubKeyUncompressed()
		case "ht":
			b.SetSigHashType(xcore.SigHashType(a.u64("v")))
		case "change":
			b.SetChange(addrOf(a))
		case "fee":
			b.SendFees(a.u64("v"))
		case "rate":
			b.SetRelayFeePerKb(a.i64("v"))
		case "max":
			b.SetMaxFees(a.i64("v"))
		case "lock":
			b.SetLockTime(uint32(a.u64("v")))
		case "push":
			b.AddPushData(keep(&datas, spare(a.hex("b"), 8)))
		case "sign":
			b.Sign()
		case "then":
			b.Then()
		case "build":
			tx, err := b.BuildTransaction()
			for _, l := range [][][2][]byte{redeems, datas} {
				for _, p := range l {
					if !intact(p[0], p[1], 8) {
						panic("building changed what it was given")
					}
				}
			}
			if err != nil {
				return M{"ok": false, "err": errNum(err)}
			}
			m := txReport(tx)
			m["ok"], m["valid"] = true, tx.Verify() == nil
			// what happens to a built transaction is not the builder's business
			tx.SetVersion(77)
			tx.SetLockTime(99)
			tx.AddOutput(xcore.NewTxOut(5, []byte{1, 2, 3}))
			tx.SignIndex(0, true, xcore.SigHashNone, xcrypto.PrvKeyFromBytes([]byte{7}))
			return m
		case "estfees":
			return M{"v": i64s(xcore.EstimateFees(a.i64("size"), a.i64("rate")))}
		case "estnormal":
			return M{"v": xcore.EstimateNormalSize(a.int("ins"), a.int("outs"))}
		default:
			panic("harness: op " + op)
		}
		return x
	}
}

func raddr(r *rand.Rand, m M) M {
	m["t"] = pick(r, "p2pkh", "p2sh", "p2wpkh", "p2wsh")
	n := 20
	if m["t"] == "p2wsh" {
		n = 32
	}
	m["h"] = hx(rbytes(r, n))
	return m
}

func suiteC08(t *Rec) {
	rerun(t, builderWorld)
	t.Par(t.N(400, 4000), func(n int) {
		t.Run(fmt.Sprintf("build/%d", n), M{}, func(s *S) {
			r, w := s.R, builderWorld(nil)
			groups := 1 + r.Intn(3)
			if r.Intn(12) == 0 {
				groups += r.Intn(8)
			}
			fee, in, out := uint64(1000), uint64(0), uint64(0)
			if r.Intn(3) > 0 {
				fee = pick[uint64](r, 0, 1, 999, 100000000, 100000001, uint64(r.Intn(100000)), uint64(r.Intn(100000)), 1<<uint(r.Intn(64))+uint64(r.Intn(2)))
				s.Call(w, "fee", M{"v": u64s(fee)})
			}
			big := r.Intn(5) == 0 // sums beyond 2^63
			mkCoin := func() {
				c := rcoin(r)
				if big {
					c.v = pick(r, uint64(1<<63), 1<<63-1, 1<<64-1, 1<<62, r.Uint64())
				} else {
					c.v = uint64(r.Intn(1 << 30))
				}
				in += c.v
				id, script := hx(rbytes(r, 32)), hx(c.script)
				switch r.Intn(40) {
				case 0:
					id = pick(r, "", "zz", id[:62], id+"00", id[:63], "g"+id[1:])
				case 1:
					script = pick(r, "", "6a", script+"0", script[:len(script)-2], "zz", script+"87")
				}
				s.Call(w, "coin", M{"id": id, "n": r32(r), "v": u64s(c.v), "script": script})
				if r.Intn(12) > 0 {
					if c.redeem != nil && r.Intn(15) > 0 {
						s.Call(w, "redeem", M{"b": hx(c.redeem)})
					}
					if !c.comp {
						s.Call(w, "uncomp", M{})
					}
					if r.Intn(3) == 0 {
						s.Call(w, "ht", M{"v": rht(r)})
					}
				}
				if r.Intn(15) > 0 {
					s.Call(w, "keys", M{"keys": signArgs(c, 0, "1", r)["keys"]})
				} else if r.Intn(2) == 0 {
					s.Call(w, "keys", M{"keys": pick(r, []string{}, []string{hx(rkey(r))}, []string{hx(rkey(r)), hx(rkey(r))})})
				}
			}
			toOf := func(v uint64) {
				out += v
				s.Call(w, "to", raddr(r, M{"v": u64s(v)}))
			}
			settings := func() {
				switch r.Intn(7) {
				case 0, 1:
					s.Call(w, "change", raddr(r, M{}))
				case 2:
					s.Call(w, "rate", M{"v": i64s(pick(r, int64(0), 1, -1, 1000, 1000, 999, 1001, 123456, 1<<40, 1<<62, 1<<63-1, int64(r.Intn(100000))))})
				case 3:
					s.Call(w, "max", M{"v": i64s(pick(r, int64(fee), int64(fee)-1, int64(fee)+1, 0, -1, -1<<63, 1<<63-1, 1<<62, 1<<uint(r.Intn(63)), int64(r.Intn(200000))))})
				case 4:
					s.Call(w, "lock", M{"v": r32(r)})
				case 5:
					s.Call(w, "push", M{"b": hx(rbytes(r, pick(r, 0, 1, 20, 75, 76, 80, 255, 256, r.Intn(90))))})
				case 6:
					s.Call(w, "sign", M{})
				}
			}
			if r.Intn(5) > 0 {
				s.Call(w, "change", raddr(r, M{}))
			}
			if r.Intn(4) == 0 { // a relay fee, and data to pay for
				s.Call(w, "rate", M{"v": i64s(pick(r, int64(1000), 1, 999, 1001, 5000, 123457, int64(1+r.Intn(50000))))})
				for k := pick(r, r.Intn(4), r.Intn(4), r.Intn(14)); k > 0; k-- {
					s.Call(w, "push", M{"b": hx(rbytes(r, pick(r, 0, 1, 20, 75, 76, 80, 255, 256, 700, r.Intn(90))))})
				}
			}
			if r.Intn(5) > 0 {
				s.Call(w, "sign", M{})
			}
			for g := 0; g < groups; g++ {
				if g > 0 {
					s.Call(w, "then", M{})
				}
				if r.Intn(12) > 0 {
					mkCoin()
				}
				if r.Intn(4) == 0 {
					settings()
				}
				if r.Intn(8) > 0 {
					var v uint64
					left := in - out
					switch r.Intn(8) {
					case 0: // around what is left
						v = left - fee + uint64(r.Intn(5)) - 2
					case 1:
						v = left + uint64(r.Intn(3)) - 1
					case 2:
						v = r.Uint64()
					case 3:
						v = 0
					default:
						if left > 0 && left < 1<<62 {
							v = uint64(r.Int63n(int64(left)+1)) / 2
						} else {
							v = uint64(r.Intn(1000000))
						}
					}
					toOf(v)
				}
				if r.Intn(4) == 0 {
					settings()
				}
			}
			s.Call(w, "build", M{})
			if r.Intn(2) == 0 {
				s.Call(w, "build", M{})
			}
			// changed and built again
			for k := 0; k < r.Intn(4); k++ {
				switch r.Intn(5) {
				case 0:
					s.Call(w, "fee", M{"v": u64s(pick[uint64](r, 0, 1, in-out, in-out-1, in-out+1, 5000))})
				case 1:
					mkCoin()
				case 2:
					toOf(uint64(r.Intn(1000)))
				default:
					settings()
				}
				s.Call(w, "build", M{})
			}
		})
	})
	t.Run("estimates", M{}, func(s *S) {
		r, w := s.R, builderWorld(nil)
		for k := 0; k < t.N(400, 4000); k++ {
			s.Call(w, "estfees", M{"size": i64s(pick(r, rint64(r), int64(r.Intn(100000)), 192, 1<<63-1, 0)), "rate": i64s(pick(r, rint64(r), int64(r.Intn(1000000)), 1000, 1<<63-1, -5))})
			if k%10 == 0 {
				s.Call(w, "estnormal", M{"ins": pick(r, 0, 1, 252, 253, 65535, 65536, r.Intn(1000)), "outs": pick(r, 0, 1, 252, 253, 65535, 65536, r.Intn(1000))})
			}
		}
	})
	// the settings changed between one building and the next: nothing is left of what they were
	t.Par(t.N(24, 240), func(k int) {
		t.Run(fmt.Sprintf("settings/%d", k), M{}, func(s *S) {
			r, w := s.R, builderWorld(nil)
			for g := 0; g < 1+r.Intn(3); g++ {
				c := rcoin(r)
				for c.redeem != nil {
					c = rcoin(r)
				}
				if g > 0 {
					s.Call(w, "then", M{})
				}
				s.Call(w, "coin", M{"id": hx(rbytes(r, 32)), "n": r32(r), "v": u64s(uint64(1000000 + r.Intn(1<<24))), "script": hx(c.script)})
				s.Call(w, "keys", M{"keys": signArgs(c, 0, "1", r)["keys"]})
				if !c.comp {
					s.Call(w, "uncomp", M{})
				}
				s.Call(w, "to", raddr(r, M{"v": u64s(uint64(r.Intn(20000)))}))
			}
			if r.Intn(5) > 0 {
				s.Call(w, "change", raddr(r, M{}))
			}
			for i := 0; i < 4+r.Intn(4); i++ {
				for j := 0; j < 1+r.Intn(2); j++ {
					switch r.Intn(8) {
					case 0, 1, 2:
						s.Call(w, "rate", M{"v": i64s(pick(r, int64(0), 0, -1, 1000, 1000, 999, int64(r.Intn(20000))))})
					case 3:
						s.Call(w, "fee", M{"v": u64s(uint64(r.Intn(5000)))})
					case 4:
						s.Call(w, "max", M{"v": i64s(pick(r, int64(100000000), 100000000, 1000, 1<<40))})
					case 5:
						s.Call(w, "sign", M{})
					case 6:
						s.Call(w, "lock", M{"v": r32(r)})
					case 7:
						s.Call(w, "push", M{"b": hx(rbytes(r, r.Intn(40)))})
					}
				}
				s.Call(w, "build", M{})
			}
		})
	})
	// the same coins and the same payments over again: each is an input, each an output, as given
	t.Par(t.N(16, 160), func(k int) {
		t.Run(fmt.Sprintf("repeated/%d", k), M{}, func(s *S) {
			r, w := s.R, builderWorld(nil)
			type it struct {
				c  coin
				id string
				n  string
			}
			pool := []it{}
			for i := 0; i < 1+r.Intn(3); i++ {
				c := rcoin(r)
				for c.redeem != nil {
					c = rcoin(r)
				}
				c.v = uint64(100000 + r.Intn(1<<20))
				id := hx(rbytes(r, 32))
				if i > 0 && r.Intn(2) == 0 { // another output of the same transaction
					id = pool[0].id
				}
				pool = append(pool, it{c, id, pick(r, "0", "0", "1", r32(r))})
			}
			to := []M{raddr(r, M{}), raddr(r, M{})}
			vs := []string{"0", "0", u64s(uint64(r.Intn(900)))}
			for g, n := 0, pick(r, 3, 5, 8, 12); g < n; g++ {
				if g > 0 {
					s.Call(w, "then", M{})
				}
				x := pool[r.Intn(len(pool))]
				s.Call(w, "coin", M{"id": x.id, "n": x.n, "v": u64s(x.c.v), "script": hx(x.c.script)})
				s.Call(w, "keys", M{"keys": signArgs(x.c, 0, "1", r)["keys"]})
				if !x.c.comp {
					s.Call(w, "uncomp", M{})
				}
				d := to[r.Intn(pick(r, 1, 2))]
				s.Call(w, "to", M{"t": d["t"], "h": d["h"], "v": vs[r.Intn(3)]})
			}
			if r.Intn(4) > 0 {
				s.Call(w, "change", to[0])
			}
			if r.Intn(2) == 0 {
				b := hx(rbytes(r, r.Intn(30)))
				for i := 0; i < 2+r.Intn(3); i++ {
					s.Call(w, "push", M{"b": b})
				}
			}
			if r.Intn(3) > 0 {
				s.Call(w, "sign", M{})
			}
			s.Call(w, "build", M{})
		})
	})
	// a fee and the most there may be of it, of any size
	for k := 0; k < t.N(20, 200); k++ {
		t.Run(fmt.Sprintf("fees/%d", k), M{}, func(s *S) {
			r, w := s.R, builderWorld(nil)
			c := rcoin(r)
			for c.redeem != nil {
				c = rcoin(r)
			}
			v := pick(r, uint64(1<<64-1), 1<<63, 1<<60)
			s.Call(w, "coin", M{"id": hx(rbytes(r, 32)), "n": "0", "v": u64s(v), "script": hx(c.script)})
			s.Call(w, "to", raddr(r, M{"v": "1"}))
			s.Call(w, "change", raddr(r, M{}))
			for i := 0; i < 6; i++ {
				fee := int64(1) << uint(r.Intn(63))
				s.Call(w, "fee", M{"v": u64s(uint64(fee) + uint64(r.Intn(2)))})
				s.Call(w, "max", M{"v": i64s(pick(r, fee, fee-1, fee+1, 1<<uint(r.Intn(63))))})
				s.Call(w, "build", M{})
			}
		})
	}
	// a multisig of many keys
	t.Par(t.N(6, 30), func(k int) {
		t.Run(fmt.Sprintf("manykeys/%d", k), M{}, func(s *S) {
			r, w := s.R, builderWorld(nil)
			n := []int{16, 20, 15, 17, 21, 8}[k%6]
			c := coinOf(r, coin{comp: true, v: 1000000, kind: pick(r, "p2sh", "p2wsh")}, n)
			if r.Intn(2) == 0 {
				c.m = n
				c = func() coin { // all of them
					pubs := pubsOf(c.keys, true)
					c.redeem = multisigScript(n, pubs)
					c.script = cat([]byte{169, 20}, hash160(c.redeem), []byte{135})
					c.kind = "p2sh"
					return c
				}()
			}
			s.Call(w, "coin", M{"id": hx(rbytes(r, 32)), "n": "0", "v": u64s(c.v), "script": hx(c.script)})
			s.Call(w, "redeem", M{"b": hx(c.redeem)})
			s.Call(w, "keys", M{"keys": signArgs(c, 0, "1", r)["keys"]})
			s.Call(w, "to", raddr(r, M{"v": "999000"}))
			s.Call(w, "sign", M{})
			s.Call(w, "build", M{})
		})
	})
	// many groups: counts that take more than a byte
	t.Run("many", M{}, func(s *S) {
		r, w := s.R, builderWorld(nil)
		s.Call(w, "rate", M{"v": "1000"})
		for g := 0; g < 254; g++ {
			c := rcoin(r)
			for c.redeem != nil {
				c = rcoin(r)
			}
			s.Call(w, "coin", M{"id": hx(rbytes(r, 32)), "n": u64s(uint64(g)), "v": "1000000", "script": hx(c.script)})
			s.Call(w, "to", raddr(r, M{"v": u64s(uint64(g))}))
			if g == 252 {
				s.Call(w, "change", raddr(r, M{}))
				s.Call(w, "build", M{})
			}
			s.Call(w, "then", M{})
		}
		s.Call(w, "build", M{})
	})
}
