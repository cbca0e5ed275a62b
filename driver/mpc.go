package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
)

func init() { suites["C14"] = suiteC14 }

func keyOf(d []byte) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(d) }
func pubOf(b []byte) *xcrypto.PubKey {
	p, err := xcrypto.PubKeyFromBytes(b)
	if err != nil {
		panic("harness: key: " + err.Error())
	}
	return p
}
func scalarPt(b []byte) *secp256k1.Scalar { p := pubOf(b); return secp256k1.NewScalar(p.X, p.Y) }
func showScalar(s *secp256k1.Scalar) string {
	return "04" + h32(s.X) + h32(s.Y)
}

type partyI interface {
	Phase1(*xcrypto.PubKey) *xcrypto.PubKey
	Phase2([]byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar)
	Phase3(*secp256k1.Scalar) *secp256k1.Scalar
	Phase4(*big.Int, *paillier.PubKey, *secp256k1.Scalar) (*big.Int, error)
	Close()
}
type bobI struct{ *xcrypto.EcdsaBob }

func (b bobI) Phase1(p *xcrypto.PubKey) *xcrypto.PubKey { return b.ScriptlessPhase1(p) }
func (b bobI) Phase2(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return b.ScriptlessPhase2(h)
}
func (b bobI) Phase3(r *secp256k1.Scalar) *secp256k1.Scalar { return b.ScriptlessPhase3(r) }
func (b bobI) Phase4(e *big.Int, p *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return b.ScriptlessPhase4(e, p, r)
}

type aliceI struct{ *xcrypto.EcdsaAlice }

func (b aliceI) Phase1(p *xcrypto.PubKey) *xcrypto.PubKey { return b.ScriptlessPhase1(p) }
func (b aliceI) Phase2(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return b.ScriptlessPhase2(h)
}
func (b aliceI) Phase3(r *secp256k1.Scalar) *secp256k1.Scalar { return b.ScriptlessPhase3(r) }
func (b aliceI) Phase4(e *big.Int, p *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return b.ScriptlessPhase4(e, p, r)
}

func mpcWorld(init A) World {
	adaptor := init.str("kind") == "adaptor"
	ds := [][]byte{nil, init.hex("d1"), init.hex("d2")}
	prv := []*xcrypto.PrvKey{nil, keyOf(ds[1]), keyOf(ds[2])}
	var parties [3]partyI
	var ecdsa [3]*xcrypto.EcdsaParty
	var alice *xcrypto.EcdsaAlice
	var bob *xcrypto.EcdsaBob
	var secret *big.Int
	if adaptor {
		secret = new(big.Int).SetBytes(init.hex("t"))
		alice, bob = xcrypto.NewEcdsaAlice(prv[1]), xcrypto.NewEcdsaBob(prv[2], secret)
		parties[1], parties[2] = aliceI{alice}, bobI{bob}
	} else {
		ecdsa[1], ecdsa[2] = xcrypto.NewEcdsaParty(prv[1]), xcrypto.NewEcdsaParty(prv[2])
		parties[1], parties[2] = ecdsa[1], ecdsa[2]
	}
	type enc struct {
		c  *big.Int
		pk *paillier.PubKey
	}
	var encs []enc
	var cts []enc
	half := []*big.Int{nil, new(big.Int), new(big.Int)}
	sigs := [][]byte{nil, nil, nil}
	joint := pubOf(prv[1].PubKey().SerializeCompressed())
	curve := secp256k1.SECP256K1()
	joint.X, joint.Y = curve.ScalarMult(joint.X, joint.Y, ds[2])
	// everything handed out, with what it was then
	var out []func() bool
	keepInt := func(x *big.Int) {
		if x != nil {
			s := x.String()
			out = append(out, func() bool { return x.String() == s })
		}
	}
	keepBytes := func(b []byte) {
		s := hx(b)
		out = append(out, func() bool { return hx(b) == s })
	}
	kept := func() bool {
		for _, f := range out {
			if !f() {
				return false
			}
		}
		return new(big.Int).SetBytes(ds[1]).Cmp(prv[1].D) == 0 && new(big.Int).SetBytes(ds[2]).Cmp(prv[2].D) == 0 && (secret == nil || secret.Cmp(new(big.Int).SetBytes(init.hex("t"))) == 0)
	}
	keepPt := func(p *secp256k1.Scalar) { keepInt(p.X); keepInt(p.Y) }
	return func(op string, a A) M {
		p := a.int("p")
		var me partyI
		if p > 0 {
			me = parties[p]
		}
		shift := func(x *big.Int) *big.Int {
			y := new(big.Int).Add(x, big.NewInt(int64(a.int("add"))))
			return y.Mod(y, secN)
		}
		switch op {
		case "p1":
			q := pubOf(a.hex("pub"))
			keepInt(q.X)
			keepInt(q.Y)
			j := me.Phase1(q)
			keepInt(j.X)
			keepInt(j.Y)
			return M{"ok": true, "pub": hx(j.SerializeCompressed()), "same": kept()}
		case "p2":
			h := spare(a.hex("hash"), 16)
			c, pk, r := me.Phase2(h)
			same := intact(h, a.hex("hash"), 16)
			for i := range h { // the hash was only lent
				h[i] ^= 0xff
			}
			if c == nil || pk == nil || r == nil {
				return M{"ok": false, "same": same}
			}
			encs = append(encs, enc{c, pk})
			keepInt(c)
			keepInt(pk.N)
			keepInt(pk.NN)
			keepInt(pk.G)
			keepPt(r)
			return M{"ok": true, "r": showScalar(r), "same": same && kept()}
		case "p3":
			q := scalarPt(a.hex("r"))
			keepPt(q)
			r := me.Phase3(q)
			keepPt(r)
			return M{"ok": true, "r": showScalar(r), "same": kept()}
		case "p4":
			e, q := encs[a.int("enc")-1], scalarPt(a.hex("r"))
			keepPt(q)
			ct, err := me.Phase4(e.c, e.pk, q)
			if err != nil {
				cts = append(cts, enc{nil, nil})
				return M{"ok": false, "same": kept()}
			}
			cts = append(cts, enc{ct, e.pk})
			keepInt(ct)
			return M{"ok": true, "same": kept()}
		case "mut":
			c := cts[a.int("ct")-1]
			d := new(big.Int).Mul(c.c, new(big.Int).Add(c.pk.N, big.NewInt(1)))
			cts = append(cts, enc{d.Mod(d, c.pk.NN), c.pk})
			return M{"ok": true}
		case "p5":
			q, ct := scalarPt(a.hex("r")), cts[a.int("ct")-1].c
			keepPt(q)
			if !adaptor {
				g, err := ecdsa[p].Phase5(q, ct)
				if err != nil {
					sigs[p] = nil
					return M{"ok": false, "same": kept()}
				}
				sigs[p] = g
				keepBytes(g)
				return M{"ok": true, "sig": hx(g), "same": kept()}
			}
			var v *big.Int
			var err error
			if p == 1 {
				v, err = alice.ScriptlessPhase5(q, ct)
			} else {
				v, err = bob.ScriptlessPhase5(q, ct)
			}
			if err != nil {
				half[p] = new(big.Int)
				return M{"ok": false, "same": kept()}
			}
			half[p] = v
			keepInt(v)
			return M{"ok": true, "s": v.String(), "same": kept()}
		case "p6a":
			x := shift(half[1])
			keepInt(x)
			t := alice.ScriptlessPhase6(x, half[2])
			if t == nil {
				return M{"ok": false, "same": kept()}
			}
			keepInt(t)
			return M{"ok": true, "t": t.String(), "same": kept()}
		case "p6b":
			x, q := shift(half[p]), scalarPt(a.hex("r"))
			keepInt(x)
			keepPt(q)
			g, err := bob.ScriptlessPhase6(q, x)
			if err != nil {
				return M{"ok": false, "same": kept()}
			}
			sigs[p] = g
			keepBytes(g)
			return M{"ok": true, "sig": hx(g), "same": kept()}
		case "verify":
			return M{"ok": xcrypto.EcdsaVerify(joint, a.hex("hash"), sigs[p]) == nil}
		case "close":
			me.Close()
			return M{"same": kept()}
		}
		panic("harness: unknown operation " + op)
	}
}

// the pieces a random session passes around
type mpcMsgs struct {
	r, sh [3]string
	enc   [3]int
	ct    [3]int
	encs  int
	cts   int
}

func suiteC14(t *Rec) {
	rerun(t, mpcWorld)
	t.Par(t.N(60, 600), func(k int) {
		r0 := t.rng(fmt.Sprintf("mpcinit/%d", k))
		kind := pick(r0, "ecdsa", "adaptor")
		ini := M{"kind": kind, "d1": h32(rkeyScalar(r0)), "d2": h32(rkeyScalar(r0)), "t": "", "hash": "", "order": 0, "fault": ""}
		if kind == "adaptor" {
			ini["t"] = h32(rkeyScalar(r0))
		}
		t.Run(fmt.Sprintf("mpc/%d", k), ini, func(s *S) { mpcSession(s, norm(ini), "") })
	})
	// short numbers: in the joint signature, in the joint key
	t.Par(t.N(16, 64), func(k int) {
		r0 := t.rng(fmt.Sprintf("mpcrare/%d", k))
		kind := []string{"ecdsa", "adaptor"}[k%2]
		ini := M{"kind": kind, "d1": rareKeys[0], "d2": rareKeys[1], "t": "", "hash": "", "order": 0, "fault": ""}
		h := rareMsg(rareMpc[k/2%len(rareMpc)])
		if k%4 == 3 {
			d := rkeyScalar(r0)
			d2 := new(big.Int).ModInverse(d, secN)
			ini["d1"], ini["d2"], h = h32(d), h32(d2.Mul(d2, rareScalar(r0)).Mod(d2, secN)), ""
		}
		if kind == "adaptor" {
			ini["t"] = h32(rkeyScalar(r0))
			if h != "" && r0.Intn(4) > 0 { // the secret makes the joint nonce a rare one
				x := new(big.Int).Set(secN)
				x = xecdsa.NonceRFC6979(x, hexInt(rareKeys[0]), unhx(h))
				x.Mul(x, xecdsa.NonceRFC6979(new(big.Int).Set(secN), hexInt(rareKeys[1]), unhx(h))).ModInverse(x, secN)
				ini["t"] = h32(x.Mul(x, rareScalar(r0)).Mod(x, secN))
			}
		}
		t.Run(fmt.Sprintf("mpcrare/%d", k), ini, func(s *S) { mpcSession(s, norm(ini), h) })
	})
}

func mpcSession(s *S, ini A, hash string) {
	r, w := s.R, mpcWorld(ini)
	adaptor := ini.str("kind") == "adaptor"
	d := []string{"", ini.str("d1"), ini.str("d2")}
	pub := func(p int) string { return hx(keyOf(unhx(d[p])).PubKey().SerializeCompressed()) }
	hashes := []string{hx(rhash(r)), hx(rhash(r))}
	if hash != "" {
		hashes[0] = hash
	}
	var m mpcMsgs
	for round := 0; round < 1+r.Intn(2); round++ {
		h := hashes[0]
		fault := r.Intn(4) == 0
		odd := func() bool { return fault && r.Intn(4) == 0 }
		done := map[string]bool{}
		// finish both parties in a random order
		for len(done) < 10 {
			p := 1 + r.Intn(2)
			q := 3 - p
			key := func(o string, x int) string { return fmt.Sprint(o, x) }
			switch o := pick(r, "p1", "p2", "p3", "p4", "p5"); o {
			case "p1":
				s.Call(w, o, M{"p": p, "pub": pub(q)})
				done[key(o, p)] = true
			case "p2":
				if done[key(o, p)] && r.Intn(10) != 0 {
					continue
				}
				hh := h
				if odd() {
					hh = hashes[1]
				}
				x := s.Call(w, o, M{"p": p, "hash": hh})
				if x == nil || x["ok"] != true {
					return
				}
				m.encs++
				m.r[p], m.enc[p] = x["r"].(string), m.encs
				done[key(o, p)] = true
			case "p3":
				if !done[key("p2", p)] || !done[key("p2", q)] {
					continue
				}
				rr := m.r[q]
				if odd() {
					rr = m.r[p]
				}
				x := s.Call(w, o, M{"p": p, "r": rr})
				if x == nil {
					return
				}
				m.sh[p] = x["r"].(string)
				done[key(o, p)] = true
			case "p4":
				if !done[key("p3", p)] {
					continue
				}
				e, sh := m.enc[q], m.sh[p]
				if odd() {
					e = 1 + r.Intn(m.encs)
				}
				if odd() {
					sh = pick(r, m.r[1], m.r[2], m.sh[p])
				}
				if x := s.Call(w, o, M{"p": p, "enc": e, "r": sh}); x == nil {
					return
				}
				m.cts++
				m.ct[p] = m.cts
				done[key(o, p)] = true
			case "p5":
				if !done[key("p4", q)] || !done[key("p3", p)] {
					continue
				}
				ct, sh := m.ct[q], m.sh[p]
				if odd() {
					ct = 1 + r.Intn(m.cts)
				}
				if odd() {
					s.Call(w, "mut", M{"p": p, "ct": ct})
					m.cts++
					ct = m.cts
				}
				if odd() {
					sh = pick(r, m.r[1], m.r[2])
				}
				s.Call(w, o, M{"p": p, "r": sh, "ct": ct})
				done[key(o, p)] = true
			}
		}
		if adaptor {
			for i := 0; i < 3; i++ {
				if r.Intn(2) == 0 {
					s.Call(w, "p6a", M{"p": 1, "add": pick(r, 0, 0, 0, 1)})
				}
				s.Call(w, "p6b", M{"p": 2, "r": m.sh[2], "add": pick(r, 0, 0, 0, 1)})
				s.Call(w, "verify", M{"p": 2, "hash": h})
			}
		} else {
			for p := 1; p <= 2; p++ {
				s.Call(w, "verify", M{"p": p, "hash": h})
				s.Call(w, "verify", M{"p": p, "hash": hashes[1]})
			}
		}
		hashes[0], hashes[1] = hashes[1], hashes[0]
	}
	for p := 1; p <= 2; p++ {
		s.Call(w, "close", M{"p": p})
	}
}

// rkeyScalar is a key: 1..N-1.
func rkeyScalar(r *rand.Rand) *big.Int {
	for {
		if k := rscalar(r); k.Sign() > 0 && k.Cmp(secN) < 0 {
			return k
		}
	}
}
