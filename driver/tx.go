package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
)

func init() {
	suites["C05"] = suiteC05
	suites["C06"] = suiteC06
	suites["C07"] = suiteC07
}

func redeemArg(a A) []byte {
	if a.has("redeem") {
		return a.hex("redeem")
	}
	return nil
}

func prvs(bs [][]byte) []*xcrypto.PrvKey {
	r := []*xcrypto.PrvKey{}
	for _, b := range bs {
		r = append(r, xcrypto.PrvKeyFromBytes(b))
	}
	return r
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func txReport(tx *xcore.Transaction) M {
	// nothing handed out earlier is looked at again
	scribble(tx.Serialize())
	scribble(tx.SerializeNoWitness())
	scribble(tx.Hash())
	scribble(tx.WitnessHash())
	return M{"full": hx(tx.Serialize()), "strip": hx(tx.SerializeNoWitness()), "id": tx.ID(), "wid": tx.WitnessID(),
		"h": hx(tx.Hash()), "wh": hx(tx.WitnessHash()), "has": tx.HasWitness(),
		"base": tx.BaseSize(), "wit": tx.WitnessSize(), "size": tx.Size(), "weight": tx.Weight(), "vsize": tx.Vsize(), "fees": i64s(int64(tx.Fees()))}
}

// txWorld: one transaction; ins and outs are what was added to it by hand.
func txWorld(A) World {
	tx := xcore.NewTransaction()
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	return func(op string, a A) M {
		switch op {
		case "ver":
			tx.SetVersion(uint32(a.u64("v")))
			return M{"x": 0}
		case "lock":
			tx.SetLockTime(uint32(a.u64("v")))
			return M{"x": 0}
		case "in":
			in, err := xcore.NewTxIn(a.hex("h"), uint32(a.u64("n")), a.u64("v"), a.hex("script"), redeemArg(a))
			if err != nil {
				return M{"ok": false}
			}
			if in.Sequence != 0xffffffff {
				panic("sequence")
			}
			in.Sequence = uint32(a.u64("seq"))
			tx.AddInput(in)
			ins = append(ins, in)
			return M{"ok": true, "lock": hx(in.RawLockingScript), "final": hx(in.FinalLockingScript), "code": hx(in.WitnessScriptCode), "segwit": in.HasWitness()}
		case "out":
			out := xcore.NewTxOut(a.u64("v"), a.hex("s"))
			tx.AddOutput(out)
			outs = append(outs, out)
			return M{"x": 0}
		case "setin":
			in := ins[a.int("i")]
			in.Hash, in.Index, in.Sequence, in.Value = a.hex("h"), uint32(a.u64("n")), uint32(a.u64("seq")), a.u64("v")
			return M{"x": 0}
		case "setout":
			out := outs[a.int("i")]
			out.Value, out.Script = a.u64("v"), a.hex("s")
			return M{"x": 0}
		case "ser":
			return txReport(tx)
		case "load":
			to := tx
			if !a.bool("reuse") {
				to = xcore.NewTransaction()
			}
			b := a.hex("b")
			err := error(nil)
			if a.bool("strip") {
				err = to.DeserializeNoWitness(b)
			} else {
				err = to.Deserialize(b)
			}
			if err == nil {
				tx = to
			} else if a.bool("reuse") {
				tx = xcore.NewTransaction()
			}
			if err == nil || a.bool("reuse") {
				ins, outs = nil, nil
			}
			scribble(b)
			return M{"ok": err == nil}
		case "attach":
			return M{"ok": tx.SetTxIn(a.int("i"), a.u64("v"), a.hex("script"), redeemArg(a)) == nil}
		case "sign":
			return M{"ok": tx.SignIndex(a.int("i"), a.bool("comp"), xcore.SigHashType(a.u64("ht")), prvs(a.hexes("keys"))...) == nil}
		case "embed":
			var ps []xcore.PubKeySign
			for _, x := range a.objs("signs") {
				ps = append(ps, xcore.PubKeySign{PubKey: x.hex("k"), Signature: x.hex("s")})
			}
			return M{"ok": tx.EmbedIdxSignature(a.int("i"), ps) == nil}
		case "embedsig":
			sig := spare(a.hex("sig"), 4)
			err := tx.EmbedIdxEcdsaSignature(a.int("i"), xcrypto.PrvKeyFromBytes(a.hex("key")).PubKey(), sig, xcore.SigHashType(a.u64("ht")))
			if !intact(sig, a.hex("sig"), 4) {
				panic("signature changed")
			}
			scribble(sig)
			return M{"ok": err == nil}
		case "rawhash":
			return M{"h": hx(tx.RawSignatureHash(a.int("i"), xcore.SigHashType(a.u64("ht"))))}
		case "withash":
			return M{"h": hx(tx.WitnessV0SignatureHash(a.int("i"), xcore.SigHashType(a.u64("ht"))))}
		case "rawsig":
			s, err := tx.RawSignature(a.int("i"), xcore.SigHashType(a.u64("ht")), xcrypto.PrvKeyFromBytes(a.hex("key")))
			return okm(err, M{"s": hx(s)})
		case "witsig":
			s, err := tx.WitnessSignature(a.int("i"), xcore.SigHashType(a.u64("ht")), xcrypto.PrvKeyFromBytes(a.hex("key")))
			return okm(err, M{"s": hx(s)})
		case "verify":
			err := tx.Verify()
			if (tx.Verify() == nil) != (err == nil) {
				panic("verdict changed")
			}
			return M{"ok": err == nil}
		case "text":
			tx.ToString()
			return M{"x": 0}
		}
		panic("harness: op " + op)
	}
}

// ---- coins to spend ----
type coin struct {
	script, redeem []byte
	keys           [][]byte // private keys that may sign
	m              int      // how many must, in order
	comp           bool
	v              uint64
	kind           string
}

func pubsOf(keys [][]byte, comp bool) [][]byte {
	var r [][]byte
	for _, k := range keys {
		p := xcrypto.PrvKeyFromBytes(k).PubKey()
		if comp {
			r = append(r, p.SerializeCompressed())
		} else {
			r = append(r, p.SerializeUncompressed())
		}
	}
	return r
}

func multisigScript(m int, pubs [][]byte) []byte {
	s := count(m)
	for _, p := range pubs {
		s = cat(s, push(p))
	}
	return cat(s, count(len(pubs)), []byte{174})
}

func rcoin(r *rand.Rand) coin {
	c := coin{comp: r.Intn(4) != 0, v: uint64(r.Intn(1 << 20)), m: 1}
	if r.Intn(8) == 0 {
		c.v = pick[uint64](r, 0, 1, 2100000000000000, 1<<63, 1<<64-1, 1<<32)
	}
	c.kind = pick(r, "p2pkh", "p2wpkh", "p2sh", "p2wsh")
	n := 1
	if c.kind == "p2sh" || c.kind == "p2wsh" {
		n = pick(r, 1, 1, 2, 2, 3, 3, 4)
	}
	return coinOf(r, c, n)
}

// coinOf gives the coin its keys and scripts.
func coinOf(r *rand.Rand, c coin, n int) coin {
	for i := 0; i < n; i++ {
		c.keys = append(c.keys, kbytes(r))
	}
	pubs := pubsOf(c.keys, c.comp)
	switch c.kind {
	case "p2pkh":
		c.script = cat([]byte{118, 169, 20}, hash160(pubs[0]), []byte{136, 172})
	case "p2wpkh":
		c.script = cat([]byte{0, 20}, hash160(pubs[0]))
	default:
		c.m = 1 + r.Intn(n)
		c.redeem = multisigScript(c.m, pubs)
		if c.kind == "p2sh" {
			c.script = cat([]byte{169, 20}, hash160(c.redeem), []byte{135})
		} else {
			c.script = cat([]byte{0, 32}, sha(c.redeem))
		}
	}
	return c
}

func (c coin) args(m M) M {
	m["v"], m["script"] = u64s(c.v), hx(c.script)
	if c.redeem != nil {
		m["redeem"] = hx(c.redeem)
	}
	return m
}

var hts = []uint64{1, 2, 3, 0x81, 0x82, 0x83}

func rht(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return u64s(pick[uint64](r, 0, 4, 0x1f, 0x80, 0x84, 0x41, 0x22, 0x43, 0xff, 0x61, 0xe2, 0xa3, 0x101, 0x80000001, 0xffffff03, 0x1c2))
	}
	return u64s(pick(r, hts...))
}

func rseq(r *rand.Rand) string {
	return u64s(uint64(pick(r, 0xffffffff, 0xffffffff, 0xfffffffe, 0, 1, r.Uint32())))
}
func rval(r *rand.Rand) string {
	return u64s(pick(r, uint64(r.Intn(1000000)), uint64(r.Intn(1000000)), 0, 1, 546, 2100000000000000, 1<<32, 1<<63-1, 1<<63, 1<<64-1, r.Uint64()))
}
func r32(r *rand.Rand) string { return u64s(uint64(pick(r, 0, 1, 2, 0xffffffff, 1<<31, r.Uint32()))) }

func inArgs(r *rand.Rand, c coin) M {
	return c.args(M{"h": hx(rbytes(r, 32)), "n": r32(r), "seq": rseq(r)})
}

func rlock(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return rbytes(r, r.Intn(60))
	case 1:
		return nil
	}
	return rcoin(r).script
}

// newTx puts up a transaction with random inputs and outputs.
func newTx(s *S, w World, maxIn, maxOut int) []coin {
	r := s.R
	if r.Intn(3) > 0 {
		s.Call(w, "ver", M{"v": r32(r)})
	}
	if r.Intn(3) > 0 {
		s.Call(w, "lock", M{"v": r32(r)})
	}
	var cs []coin
	for i := 0; i < 1+r.Intn(maxIn); i++ {
		c := rcoin(r)
		if m := s.Call(w, "in", inArgs(r, c)); m != nil && m["ok"] == true {
			cs = append(cs, c)
		}
	}
	for i := 0; i < r.Intn(maxOut+1); i++ {
		s.Call(w, "out", M{"v": rval(r), "s": hx(rlock(r))})
	}
	return cs
}

func signArgs(c coin, i int, ht string, r *rand.Rand) M {
	// m of the keys, in order
	idx := r.Perm(len(c.keys))[:c.m]
	in := make([]bool, len(c.keys))
	for _, k := range idx {
		in[k] = true
	}
	ks := []string{}
	for k := range c.keys {
		if in[k] {
			ks = append(ks, hx(c.keys[k]))
		}
	}
	return M{"i": i, "comp": c.comp, "ht": ht, "keys": ks}
}

func vint(n int) []byte {
	switch {
	case n < 253:
		return []byte{byte(n)}
	case n < 65536:
		return []byte{253, byte(n), byte(n >> 8)}
	}
	return []byte{254, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

// rawTx: the bytes of a transaction, with the given counts or random ones.
func rawTx(r *rand.Rand, nin, nout, nwit, slen int) []byte {
	b := rbytes(r, 4)
	scr := func() []byte {
		n := slen
		if n < 0 {
			n = r.Intn(40)
		}
		return cat(vint(n), rbytes(r, n))
	}
	if nwit >= 0 {
		b = append(b, 0, 1)
	}
	b = append(b, vint(nin)...)
	for i := 0; i < nin; i++ {
		b = cat(b, rbytes(r, 36), scr(), rbytes(r, 4))
	}
	b = append(b, vint(nout)...)
	for i := 0; i < nout; i++ {
		b = cat(b, rbytes(r, 8), scr())
	}
	for i := 0; nwit >= 0 && i < nin; i++ {
		n := nwit
		if i > 0 {
			n = r.Intn(3)
		}
		b = append(b, vint(n)...)
		for j := 0; j < n; j++ {
			b = cat(b, scr())
		}
	}
	return append(b, rbytes(r, 4)...)
}

func suiteC05(t *Rec) {
	replay(t, txWorld)
	t.Par(t.N(160, 2000), func(k int) {
		t.Run(fmt.Sprintf("built/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			cs := newTx(s, w, 4, 4)
			s.Call(w, "ser", M{})
			for i, c := range cs {
				switch r.Intn(4) {
				case 0: // arbitrary bytes as signatures
					signs := []M{}
					for j := 0; j < r.Intn(4); j++ {
						signs = append(signs, M{"k": hx(rbytes(r, pick(r, 33, 65, 0, 1))), "s": hx(rbytes(r, pick(r, 71, 72, 0, 75, 76, 255, 256)))})
					}
					s.Call(w, "embed", M{"i": i, "signs": signs})
				case 1, 2:
					s.Call(w, "sign", signArgs(c, i, rht(r), r))
				}
				if r.Intn(3) == 0 {
					s.Call(w, "ser", M{})
				}
			}
			if r.Intn(3) == 0 && len(cs) > 0 {
				i := r.Intn(len(cs))
				s.Call(w, "setin", M{"i": i, "h": hx(rbytes(r, 32)), "n": r32(r), "seq": rseq(r), "v": rval(r)})
			}
			s.Call(w, "text", M{})
			m := s.Call(w, "ser", M{})
			if m == nil {
				return
			}
			full, strip := m["full"].(string), m["strip"].(string)
			s.Call(w, "load", M{"b": strip, "strip": true, "reuse": r.Intn(2) == 0})
			s.Call(w, "ser", M{})
			s.Call(w, "load", M{"b": full, "strip": false, "reuse": r.Intn(2) == 0})
			s.Call(w, "ser", M{})
			for i, c := range cs {
				if r.Intn(3) > 0 {
					s.Call(w, "attach", c.args(M{"i": i}))
				}
			}
			s.Call(w, "text", M{})
			s.Call(w, "ser", M{})
		})
	})
	t.Par(t.N(200, 3000), func(k int) {
		t.Run(fmt.Sprintf("raw/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			for j := 0; j < 4; j++ {
				nw := pick(r, -1, -1, 0, 1, 2, 3)
				b := rawTx(r, r.Intn(4), r.Intn(4), nw, pick(r, -1, -1, -1, 0, 1))
				if r.Intn(3) == 0 {
					b = mangle(r, b)
				}
				s.Call(w, "load", M{"b": hx(b), "strip": r.Intn(4) == 0, "reuse": r.Intn(2) == 0})
				if m := s.Call(w, "ser", M{}); m != nil && r.Intn(2) == 0 {
					s.Call(w, "load", M{"b": m["full"], "strip": false, "reuse": r.Intn(2) == 0})
					s.Call(w, "ser", M{})
				}
			}
		})
	})
	type big struct{ in, out, wit, len int }
	bigs := []big{{252, 1, -1, 0}, {253, 1, -1, 0}, {254, 1, 1, 0}, {1, 252, -1, 0}, {1, 253, -1, 0}, {1, 300, 1, 1}, {1, 1, 252, 0}, {1, 1, 253, 0}, {1, 1, 254, 1}, {1, 1, 256, 0}, {2, 1, 300, 1}, {1, 1, 513, 0},
		{1, 1, -1, 252}, {1, 1, 1, 252}, {1, 1, -1, 253}, {1, 1, 1, 253}, {2, 1, 2, 255}, {1, 1, 1, 256}, {1, 1, -1, 65535}, {1, 1, -1, 65536}, {1, 1, 1, 65535}, {1, 1, 1, 65536}, {1, 0, 1, 70000}, {0, 1, 0, 1}, {0, 0, -1, 0}, {2, 0, 0, 0}}
	t.Par(len(bigs), func(k int) {
		t.Run(fmt.Sprintf("big/%d", k), M{}, func(s *S) {
			r, w, x := s.R, txWorld(nil), bigs[k]
			b := rawTx(r, x.in, x.out, x.wit, x.len)
			s.Call(w, "load", M{"b": hx(b), "strip": false, "reuse": false})
			s.Call(w, "ser", M{})
			if x.len > 200 { // cut at every kind of place
				for j := 0; j < 6; j++ {
					s.Call(w, "load", M{"b": hx(b[:r.Intn(len(b))]), "strip": r.Intn(2) == 0, "reuse": r.Intn(2) == 0})
				}
			}
		})
	})
}

func suiteC06(t *Rec) {
	replay(t, txWorld)
	t.Par(t.N(150, 2000), func(k int) {
		t.Run(fmt.Sprintf("hash/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			cs := newTx(s, w, 4, 5)
			if len(cs) == 0 {
				return
			}
			hash := func() {
				i := r.Intn(len(cs))
				if r.Intn(2) == 0 {
					s.Call(w, "withash", M{"i": i, "ht": rht(r)})
				} else {
					if r.Intn(12) == 0 {
						i = pick(r, -1, len(cs), len(cs)+7)
					}
					s.Call(w, "rawhash", M{"i": i, "ht": rht(r)})
				}
			}
			for j := 0; j < 24; j++ {
				switch r.Intn(12) {
				case 0:
					s.Call(w, "setin", M{"i": r.Intn(len(cs)), "h": hx(rbytes(r, 32)), "n": r32(r), "seq": rseq(r), "v": rval(r)})
				case 1:
					s.Call(w, "out", M{"v": rval(r), "s": hx(rlock(r))})
				case 2:
					s.Call(w, pick(r, "ver", "lock"), M{"v": r32(r)})
				case 3:
					if r.Intn(2) == 0 {
						c := rcoin(r)
						if m := s.Call(w, "in", inArgs(r, c)); m != nil && m["ok"] == true {
							cs = append(cs, c)
						}
					} else {
						i := r.Intn(len(cs))
						s.Call(w, "sign", signArgs(cs[i], i, rht(r), r))
					}
				case 4:
					i := r.Intn(len(cs))
					s.Call(w, pick(r, "rawsig", "witsig"), M{"i": pick(r, i, i, i, -1, len(cs)), "ht": rht(r), "key": hx(kbytes(r))})
				case 5: // every type of one input, in some order
					i, op := r.Intn(len(cs)), pick(r, "rawhash", "withash")
					for _, h := range r.Perm(len(hts)) {
						s.Call(w, op, M{"i": i, "ht": u64s(hts[h])})
					}
				case 6: // another output under an input
					c := rcoin(r)
					i := r.Intn(len(cs))
					if m := s.Call(w, "attach", c.args(M{"i": i})); m != nil && m["ok"] == true {
						cs[i] = c
					}
				default:
					hash()
				}
			}
			// once more on a copy
			if m := s.Call(w, "ser", M{}); m != nil {
				s.Call(w, "load", M{"b": m["full"], "strip": false, "reuse": r.Intn(2) == 0})
				for i, c := range cs {
					s.Call(w, "attach", c.args(M{"i": i}))
				}
				for j := 0; j < 6; j++ {
					hash()
				}
			}
		})
	})
	// many outputs and large scripts
	t.Par(t.N(8, 40), func(k int) {
		t.Run(fmt.Sprintf("wide/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			b := rawTx(r, pick(r, 253, 260, 2), pick(r, 253, 260, 2), -1, pick(r, 0, 0, 253, 300))
			s.Call(w, "load", M{"b": hx(b), "strip": false, "reuse": false})
			for _, i := range []int{0, 1} {
				c := rcoin(r)
				s.Call(w, "attach", c.args(M{"i": i}))
				for _, h := range hts {
					s.Call(w, "rawhash", M{"i": i, "ht": u64s(h)})
					s.Call(w, "withash", M{"i": i, "ht": u64s(h)})
				}
			}
			s.Call(w, "rawhash", M{"i": 252, "ht": "3"})
			s.Call(w, "rawhash", M{"i": 1, "ht": "131"})
			for _, i := range []int{7, 16, 64, 127, 128, 200, 251} {
				if m := s.Call(w, "attach", rcoin(r).args(M{"i": i})); m != nil && m["ok"] == true {
					h := u64s(pick(r, hts...))
					s.Call(w, "rawhash", M{"i": i, "ht": h})
					s.Call(w, "withash", M{"i": i, "ht": pick(r, h, "3", "131")})
				}
			}
		})
	})
	// redeem scripts of any length
	t.Par(t.N(8, 40), func(k int) {
		t.Run(fmt.Sprintf("code/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			n := 0
			for _, l := range []int{0, 1, 75, 76, 252, 253, 255, 256, 300, 519, 520, 521, 1000, 3600, 3601, 10000, 10001, r.Intn(700)} {
				if l >= 1000 && r.Intn(4) > 0 {
					continue
				}
				c := coin{v: r.Uint64(), redeem: rbytes(r, l)}
				if l > 0 && r.Intn(3) == 0 { // all of it instructions
					c.redeem = bytes.Repeat([]byte{pick(r, byte(118), 172, 171, 106)}, l)
				}
				if r.Intn(2) == 0 {
					c.script = cat([]byte{169, 20}, hash160(c.redeem), []byte{135})
				} else {
					c.script = cat([]byte{0, 32}, sha(c.redeem))
				}
				if m := s.Call(w, "in", inArgs(r, c)); m != nil && m["ok"] == true {
					n++
				}
				s.Call(w, "out", M{"v": rval(r), "s": hx(rbytes(r, pick(r, 0, 25, 252, 253, 520, 521, 700)))})
			}
			for i := 0; i < n; i++ {
				s.Call(w, "rawhash", M{"i": i, "ht": rht(r)})
				s.Call(w, "withash", M{"i": i, "ht": rht(r)})
			}
		})
	})
}

func suiteC07(t *Rec) {
	replay(t, txWorld)
	// many keys
	t.Par(t.N(10, 60), func(k int) {
		t.Run(fmt.Sprintf("manykeys/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			n := []int{15, 16, 17, 20, 21, 5, 7, 10, 14, 18}[k%10]
			c := coinOf(r, coin{comp: r.Intn(4) != 0, v: uint64(r.Intn(1 << 20)), kind: []string{"p2sh", "p2wsh"}[(k/10+k)%2]}, n)
			s.Call(w, "in", inArgs(r, rcoin(r)))
			s.Call(w, "in", inArgs(r, c))
			s.Call(w, "out", M{"v": rval(r), "s": hx(rlock(r))})
			s.Call(w, "sign", signArgs(c, 1, rht(r), r))
			s.Call(w, "verify", M{})
			s.Call(w, "ser", M{})
			if r.Intn(3) == 0 {
				a := signArgs(c, 1, rht(r), r)
				ks := a["keys"].([]string)
				ks[r.Intn(len(ks))] = hx(kbytes(r))
				s.Call(w, "sign", a)
				s.Call(w, "verify", M{})
			}
		})
	})
	// an input taken to spend one thing, and then another: of what it was signed with nothing remains
	t.Par(t.N(24, 240), func(k int) {
		t.Run(fmt.Sprintf("another/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			cs := newTx(s, w, 2, 2)
			if len(cs) == 0 {
				return
			}
			for j := 0; j < 5; j++ {
				i := r.Intn(len(cs))
				if j > 0 {
					cs[i] = rcoin(r)
					s.Call(w, "attach", cs[i].args(M{"i": i}))
				}
				if r.Intn(6) == 0 {
					s.Call(w, "embed", M{"i": i, "signs": []M{}})
				}
				s.Call(w, "sign", signArgs(cs[i], i, rht(r), r))
				s.Call(w, "verify", M{})
				s.Call(w, "ser", M{})
			}
		})
	})
	t.Par(t.N(200, 2500), func(k int) {
		t.Run(fmt.Sprintf("sign/%d", k), M{}, func(s *S) {
			r, w := s.R, txWorld(nil)
			cs := newTx(s, w, 3, 3)
			if len(cs) == 0 {
				return
			}
			spoil := -1
			if r.Intn(3) == 0 {
				spoil = r.Intn(len(cs))
			}
			for _, i := range r.Perm(len(cs)) {
				c := cs[i]
				a := signArgs(c, i, rht(r), r)
				ks := a["keys"].([]string)
				if i == spoil {
					switch r.Intn(8) {
					case 0: // one key short
						a["keys"] = ks[:len(ks)-1]
					case 1: // a stranger's key
						ks[r.Intn(len(ks))] = hx(kbytes(r))
					case 2: // out of order
						if len(ks) > 1 {
							ks[0], ks[1] = ks[1], ks[0]
						} else {
							a["keys"] = append(ks, hx(kbytes(r)))
						}
					case 3: // the same key again
						ks[len(ks)-1] = ks[0]
					case 4:
						a["comp"] = !c.comp
					case 5: // one too many
						a["keys"] = append(ks, hx(c.keys[len(c.keys)-1]))
					case 6: // elsewhere
						a["i"] = pick(r, -1, len(cs), len(cs)+1, 1<<20)
					case 7:
						s.Call(w, "embed", M{"i": pick(r, i, -1, len(cs)), "signs": []M{}})
						continue
					}
				}
				if c.kind[:3] == "p2p" || c.kind == "p2wpkh" {
					if r.Intn(4) == 0 && c.comp && len(a["keys"].([]string)) == 1 && a["i"] == i { // signature made by hand
						op := "rawsig"
						if c.kind == "p2wpkh" {
							op = "witsig"
						}
						m := s.Call(w, op, M{"i": i, "ht": a["ht"], "key": ks[0]})
						if m != nil && m["ok"] == true {
							sig := m["s"].(string)
							s.Call(w, "embedsig", M{"i": i, "key": ks[0], "sig": sig[:len(sig)-2], "ht": a["ht"]})
							continue
						}
					}
				}
				if i != spoil && len(ks) > 0 && r.Intn(4) == 0 { // signatures made by hand, each with a hash type of its own
					op := "rawsig"
					if c.kind == "p2wsh" || c.kind == "p2wpkh" {
						op = "witsig"
					}
					signs, ok := []M{}, true
					for _, k := range ks {
						m := s.Call(w, op, M{"i": i, "ht": rht(r), "key": k})
						if ok = ok && m != nil && m["ok"] == true; ok {
							signs = append(signs, M{"k": hx(pubsOf([][]byte{unhx(k)}, c.comp)[0]), "s": m["s"]})
						}
					}
					if ok {
						s.Call(w, "embed", M{"i": i, "signs": signs})
						continue
					}
				}
				s.Call(w, "sign", a)
			}
			s.Call(w, "verify", M{})
			m := s.Call(w, "ser", M{})
			if m == nil {
				return
			}
			full := unhx(m["full"].(string))
			rebuilt := func(b []byte) bool {
				x := s.Call(w, "load", M{"b": hx(b), "strip": false, "reuse": r.Intn(2) == 0})
				return x != nil && x["ok"] == true
			}
			attach := func(change int) {
				for i, c := range cs {
					if i == change {
						d := rcoin(r)
						switch r.Intn(5) {
						case 0:
							c.v ^= 1 << uint(r.Intn(64))
						case 1:
							c.redeem = d.redeem
						case 2:
							c.script = d.script
						case 3:
							c.script, c.redeem = d.script, d.redeem
						case 4:
							if c.redeem != nil {
								c.redeem = mangle(r, c.redeem)
								if c.kind == "p2wsh" && r.Intn(2) == 0 {
									c.script = cat([]byte{0, 32}, sha(c.redeem))
								}
							}
						}
					}
					s.Call(w, "attach", c.args(M{"i": i}))
				}
				if r.Intn(6) == 0 {
					s.Call(w, "attach", cs[0].args(M{"i": pick(r, -1, len(cs), len(cs)+3)}))
				}
			}
			switch r.Intn(4) {
			case 0: // tampered in place
				for j := 0; j < 1+r.Intn(2); j++ {
					switch r.Intn(7) {
					case 0:
						s.Call(w, pick(r, "ver", "lock"), M{"v": r32(r)})
					case 1:
						s.Call(w, "out", M{"v": rval(r), "s": hx(rlock(r))})
					case 2:
						c := rcoin(r)
						s.Call(w, "in", inArgs(r, c))
					default:
						i := r.Intn(len(cs))
						ev := s.inEv(i)
						x := M{"i": i, "h": ev["h"], "n": ev["n"], "seq": ev["seq"], "v": ev["v"]}
						switch r.Intn(4) {
						case 0:
							x["h"] = hx(rbytes(r, 32))
						case 1:
							x["n"] = r32(r)
						case 2:
							x["seq"] = rseq(r)
						case 3:
							x["v"] = rval(r)
						}
						s.Call(w, "setin", x)
					}
					s.Call(w, "verify", M{})
				}
			case 1: // faithfully rebuilt
				if rebuilt(full) {
					s.Call(w, "verify", M{})
					attach(-1)
					s.Call(w, "verify", M{})
					s.Call(w, "ser", M{})
					s.Call(w, "sign", signArgs(cs[0], 0, rht(r), r))
					s.Call(w, "verify", M{})
				}
			case 2: // rebuilt on something else
				if rebuilt(full) {
					if r.Intn(2) == 0 { // first on the right thing
						attach(-1)
						s.Call(w, "verify", M{})
					}
					attach(r.Intn(len(cs)))
					s.Call(w, "verify", M{})
					if r.Intn(2) == 0 { // and back again
						attach(-1)
						s.Call(w, "verify", M{})
					}
				}
			case 3: // altered on the way
				for j := 0; j < 3; j++ {
					b := append([]byte{}, full...)
					b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
					if rebuilt(b) {
						attach(-1)
						s.Call(w, "verify", M{})
					}
				}
			}
		})
	})
}

// inEv: the arguments input i was made with.
func (s *S) inEv(i int) M {
	n := 0
	for _, e := range s.Ev {
		if e.Op == "in" && e.R.(M)["ok"] == true {
			if n == i {
				return e.A.(M)
			}
			n++
		}
	}
	panic("harness: no such input")
}
