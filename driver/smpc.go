package main

import (
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
)

func init() { suites["C15"] = suiteC15 }

func smpcWorld(init A) World {
	ds := init.hexes("ds")
	var prv []*xcrypto.PrvKey
	var parties []*xcrypto.SchnorrParty
	for _, d := range ds {
		k := keyOf(d)
		p, err := xcrypto.NewSchnorrParty(k)
		if err != nil {
			panic("harness: " + err.Error())
		}
		prv, parties = append(prv, k), append(parties, p)
	}
	// everything given or handed out, with what it was then
	var out []func() bool
	keepInt := func(x *big.Int) {
		s := x.String()
		out = append(out, func() bool { return x.String() == s })
	}
	keepBytes := func(b []byte) {
		s := hx(b)
		out = append(out, func() bool { return hx(b) == s })
	}
	for _, k := range prv {
		keepInt(k.D)
		keepInt(k.X)
		keepInt(k.Y)
	}
	kept := func() bool {
		for _, f := range out {
			if !f() {
				return false
			}
		}
		return true
	}
	return func(op string, a A) M {
		p := a.int("p") - 1
		me := parties[p]
		switch op {
		case "p1":
			q := pubOf(a.hex("pub"))
			keepInt(q.X)
			keepInt(q.Y)
			j := me.Phase1(q)
			keepInt(j.X)
			keepInt(j.Y)
			return M{"pub": hx(j.SerializeCompressed()), "same": kept()}
		case "p2":
			h := spare(a.hex("hash"), 16)
			r := me.Phase2(h)
			same := intact(h, a.hex("hash"), 16)
			for i := range h { // the hash was only lent
				h[i] ^= 0xff
			}
			if r == nil {
				return M{"r": "", "same": same}
			}
			keepInt(r.X)
			keepInt(r.Y)
			return M{"r": showScalar(r), "same": same && kept()}
		case "p3":
			q := scalarPt(a.hex("r"))
			keepInt(q.X)
			keepInt(q.Y)
			r := me.Phase3(q)
			keepInt(r.X)
			keepInt(r.Y)
			return M{"r": showScalar(r), "same": kept()}
		case "p4":
			q, r := pubOf(a.hex("pub")), scalarPt(a.hex("r"))
			keepInt(q.X)
			keepInt(q.Y)
			keepInt(r.X)
			keepInt(r.Y)
			b, err := me.Phase4(q, r)
			if err == nil {
				keepBytes(b)
			}
			return okm(err, M{"s": hx(b), "same": kept()})
		case "p5":
			r := scalarPt(a.hex("r"))
			keepInt(r.X)
			keepInt(r.Y)
			var sigs [][]byte
			for _, b := range a.hexes("sigs") {
				c := spare(b, 8)
				keepBytes(c)
				keepBytes(c[:cap(c)])
				sigs = append(sigs, c)
			}
			g, err := me.Phase5(r, sigs...)
			if err == nil {
				keepBytes(g)
			}
			return okm(err, M{"sig": hx(g), "same": kept()})
		case "verify":
			return M{"ok": xcrypto.SchnorrVerify(pubOf(a.hex("pub")), a.hex("hash"), a.hex("sig")) == nil}
		case "close":
			me.Close()
			return M{"same": kept()}
		}
		panic("harness: unknown operation " + op)
	}
}

func suiteC15(t *Rec) {
	replay(t, smpcWorld)
	t.Par(t.N(150, 2500), func(k int) {
		r0 := t.rng(fmt.Sprintf("smpcinit/%d", k))
		n := 2 + r0.Intn(3)
		if k%12 == 0 {
			n = 5 + r0.Intn(5)
		}
		ds := make([]string, n)
		for i := range ds {
			ds[i] = h32(rkeyScalar(r0))
		}
		t.Run(fmt.Sprintf("smpc/%d", k), M{"ds": ds}, func(s *S) { smpcSession(s, ds, "") })
	})
	// short numbers: in the joint signature or a share of it, in the joint key
	t.Par(t.N(24, 120), func(k int) {
		r0 := t.rng(fmt.Sprintf("smpcrare/%d", k))
		ds, h := rareKeys, rareMsg(rareSmpc[k%len(rareSmpc)])
		if k >= 18 {
			d := rkeyScalar(r0)
			x := new(big.Int).Sub(rareScalar(r0), d)
			ds, h = []string{h32(d), h32(x.Mod(x, secN))}, ""
		}
		t.Run(fmt.Sprintf("smpcrare/%d", k), M{"ds": ds}, func(s *S) { smpcSession(s, ds, h) })
	})
}

// sumOf adds up points given as text ("" where there is none); "" for the
// point at infinity.
func sumOf(pts []string, skip int) string {
	acc := ""
	for i, p := range pts {
		if i == skip || p == "" {
			continue
		}
		if acc == "" {
			acc = p
			continue
		}
		x, y := pubOf(unhx(acc)), pubOf(unhx(p))
		if x.X.Cmp(y.X) == 0 {
			if x.Y.Cmp(y.Y) != 0 {
				return ""
			}
			x.X, x.Y = x.Curve.Double(x.X, x.Y)
		} else {
			x.X, x.Y = x.Curve.Add(x.X, x.Y, y.X, y.Y)
		}
		acc = "04" + h32(x.X) + h32(x.Y)
	}
	return acc
}

func smpcSession(s *S, ds []string, hash string) {
	r, n := s.R, len(ds)
	w := smpcWorld(norm(M{"ds": ds}))
	pubs := make([]string, n)
	for i, d := range ds {
		pubs[i] = hx(keyOf(unhx(d)).PubKey().SerializeUncompressed())
	}
	whole := sumOf(pubs, -1)
	for i := range pubs { // sums that vanish are not meant to work
		if sumOf(pubs, i) == "" || whole == "" {
			return
		}
	}
	hashes := []string{hx(rhash(r)), hx(rhash(r))}
	if hash != "" {
		hashes[0] = hash
	}
	for round := 0; round < 1+r.Intn(3); round++ {
		h := hashes[0]
		fault := r.Intn(3) == 0
		odd := func() bool { return fault && r.Intn(4) == 0 }
		rs, shr, sg := make([]string, n), make([]string, n), make([]string, n)
		done := map[string]bool{}
		key := func(o string, p int) string { return fmt.Sprint(o, p) }
		all := func(o string) bool {
			for i := 0; i < n; i++ {
				if !done[key(o, i)] {
					return false
				}
			}
			return true
		}
		for !(all("p1") && all("p4")) {
			p := r.Intn(n)
			switch o := pick(r, "p1", "p2", "p3", "p4"); o {
			case "p1":
				if s.Call(w, o, M{"p": p + 1, "pub": sumOf(pubs, p)}) == nil {
					return
				}
				done[key(o, p)] = true
			case "p2":
				if done[key(o, p)] && r.Intn(6) != 0 {
					continue
				}
				hh := h
				if odd() {
					hh = hashes[1]
				}
				x := s.Call(w, o, M{"p": p + 1, "hash": hh})
				if x == nil || x["r"] == "" {
					return
				}
				rs[p] = x["r"].(string)
				done[key(o, p)] = true
			case "p3":
				if !all("p2") {
					continue
				}
				o3 := sumOf(rs, p)
				if odd() {
					o3 = hx(pubOf(unhx(rpub(r))).SerializeUncompressed())
				}
				if o3 == "" || sumOf([]string{o3, rs[p]}, -1) == "" {
					return
				}
				x := s.Call(w, o, M{"p": p + 1, "r": o3})
				if x == nil {
					return
				}
				shr[p] = x["r"].(string)
				done[key(o, p)] = true
			case "p4":
				if !done[key("p3", p)] {
					continue
				}
				q, rr := whole, shr[p]
				if odd() {
					q = pubs[p]
				}
				if odd() {
					rr = rs[p]
				}
				x := s.Call(w, o, M{"p": p + 1, "pub": q, "r": rr})
				if x == nil {
					return
				}
				sg[p], _ = x["s"].(string)
				done[key(o, p)] = true
			}
		}
		p := r.Intn(n)
		for i := 0; i < 2; i++ {
			sigs, rr := append([]string{}, sg...), shr[p]
			r.Shuffle(n, func(i, j int) { sigs[i], sigs[j] = sigs[j], sigs[i] })
			if odd() {
				b := unhx(sigs[0])
				b[r.Intn(32)] ^= 1 << uint(r.Intn(8))
				sigs[0] = hx(b)
			}
			if odd() {
				sigs = sigs[1:]
			}
			if odd() {
				sigs = append(sigs, sigs[0])
			}
			x := s.Call(w, "p5", M{"p": p + 1, "r": rr, "sigs": sigs})
			if x == nil {
				return
			}
			sig, _ := x["sig"].(string)
			s.Call(w, "verify", M{"p": 1, "pub": whole, "hash": h, "sig": sig})
			if r.Intn(3) == 0 {
				s.Call(w, "verify", M{"p": 1, "pub": whole, "hash": hashes[1], "sig": sig})
				s.Call(w, "verify", M{"p": 1, "pub": pubs[0], "hash": h, "sig": sig})
			}
		}
		hashes[0], hashes[1] = hashes[1], hashes[0]
	}
	for p := 0; p < n; p++ {
		if s.Call(w, "close", M{"p": p + 1}) == nil {
			return
		}
	}
}
