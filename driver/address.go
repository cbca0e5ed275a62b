package main

import (
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
)

func init() { suites["C09"] = suiteC09 }

func netOf(n A) *network.Network {
	switch n.str("name") {
	case "main":
		return network.MainNet
	case "test":
		return network.TestNet
	}
	return &network.Network{PubKeyHashAddrID: byte(n.int("p")), ScriptHashAddrID: byte(n.int("s")), Bech32HRPSegwit: n.str("h")}
}

func addrShown(a xcore.Address, net *network.Network) M {
	l, err := a.LockingScript()
	return okm(err, M{"t": scriptType(a), "h": hx(a.Hash160()), "s": a.ToString(net), "script": hx(l)})
}

func addrWorld(A) World {
	return func(op string, a A) M {
		net := netOf(a.obj("net"))
		switch op {
		case "mk":
			h := spare(a.hex("h"), 8)
			var x xcore.Address
			switch a.str("t") {
			case "p2pkh":
				x = xcore.NewPayToPubKeyHashAddress(h)
			case "p2sh":
				x = xcore.NewPayToScriptHashAddress(h)
			case "p2wpkh":
				x = xcore.NewPayToWitnessV0PubKeyHashAddress(h)
			case "p2wsh":
				x = xcore.NewPayToWitnessV0ScriptHashAddress(h)
			}
			if x == nil {
				return M{"ok": false, "same": intact(h, a.hex("h"), 8)}
			}
			same := intact(h, a.hex("h"), 8)
			for i := range h { // the address keeps its own copy
				h[i] ^= 0xff
			}
			l, err := x.LockingScript()
			return okm(err, M{"h": hx(x.Hash160()), "s": x.ToString(net), "script": hx(l), "same": same})
		case "dec":
			x, err := xcore.DecodeAddress(string(a.hex("s")), net)
			if err != nil {
				return M{"ok": false}
			}
			return addrShown(x, net)
		case "lock":
			s, err := xcore.ParseLockingScript(a.hex("p"))
			if err != nil {
				return M{"ok": false}
			}
			return addrShown(s.GetAddress(), net)
		}
		panic("harness: unknown operation " + op)
	}
}

func rnet(r *rand.Rand) M {
	switch r.Intn(5) {
	case 0, 1:
		return M{"name": "main", "p": 0, "s": 0, "h": ""}
	case 2, 3:
		return M{"name": "test", "p": 0, "s": 0, "h": ""}
	}
	p := r.Intn(256)
	return M{"name": "x", "p": p, "s": (p + 1 + r.Intn(255)) % 256, "h": pick(r, "bc", "tb", "bcrt", "ltc", "b", "t1", "bc1", "x1y1z", "tltcverylonghumanreadablepart")}
}

func suiteC09(t *Rec) {
	replay(t, addrWorld)
	for k := 0; k < t.N(150, 3000); k++ {
		t.Run(fmt.Sprintf("address/%d", k), M{}, func(s *S) {
			r, w := s.R, addrWorld(nil)
			types := []string{"p2pkh", "p2sh", "p2wpkh", "p2wsh"}
			for i := 0; i < 6; i++ {
				ty := pick(r, types...)
				n := 20
				if ty == "p2wsh" {
					n = 32
				}
				if r.Intn(10) == 0 {
					n = pick(r, 0, 19, 21, 20, 31, 32, 33)
				}
				h := zlead(r, n)
				net := rnet(r)
				dec := func(x string, net M) { s.Call(w, "dec", M{"s": hx([]byte(x)), "net": net}) }
				m := s.Call(w, "mk", M{"t": ty, "h": hx(h), "net": net})
				if m == nil || m["ok"] != true {
					continue
				}
				x := m["s"].(string)
				dec(x, net)
				dec(x, rnet(r))
				dec(x, rnet(r))
				s.Call(w, "lock", M{"p": m["script"], "net": rnet(r)})
				chars := b58chars
				if ty == "p2wpkh" || ty == "p2wsh" {
					chars = b32chars
				}
				for j := 0; j < 5; j++ {
					y := corrupt(r, x, chars)
					if r.Intn(4) == 0 {
						y = corrupt(r, y, chars)
					}
					dec(y, net)
				}
				s.Call(w, "lock", M{"p": hx(templ(r)), "net": net})
				// right checksum, one group of a good address altered: its version, some other group, its padding
				if hrp, d, err := xbase.Bech32Decode(x); err == nil && len(d) > 2 {
					for j := 0; j < 4; j++ {
						e := append([]byte{}, d...)
						switch j {
						case 0:
							e[0] = byte(r.Intn(32))
						case 1:
							e[len(e)-1] ^= byte(1 + r.Intn(31))
						case 2:
							e[len(e)-1] |= byte(1 << r.Intn(5))
						case 3:
							e = pick(r, e[:len(e)-1], append(e, 0), append(e, byte(r.Intn(32))), append(e, 0, 0), e[1:])
						}
						if y, err := xbase.Bech32Encode(hrp, e); err == nil {
							dec(y, net)
						}
					}
				}
				// right checksum, other contents
				nw := netOf(norm(net))
				v := pick(r, nw.PubKeyHashAddrID, nw.ScriptHashAddrID, byte(r.Intn(256)))
				dec(xbase.Base58CheckEncode(zlead(r, pick(r, 0, 19, 20, 20, 21, 32, 33)), v), net)
				d := []byte{byte(pick(r, 0, 0, 1, 2, 16, 17, 31))}
				for j := 0; j < pick(r, 0, 1, 31, 32, 32, 33, 51, 52, 52, 53); j++ {
					d = append(d, byte(r.Intn(32)))
				}
				if len(d) > 1 {
					d[len(d)-1] &= pick(r, byte(31), 16, 0)
				}
				if y, err := xbase.Bech32Encode(pick(r, nw.Bech32HRPSegwit, "bc", "tb", "b"), d); err == nil {
					dec(y, net)
				}
				dec(pick(r, "", "1", "bc1", "tb1q", "BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4", "bc1zw508d6qejxtdg4y5r3zarvaryvg6kdaj", "BC13W508D6QEJXTDG4Y5R3ZARVARY0C5XW7KN40WF2", "bc1rw5uspcuh", "tb1qrp33g0q5c5txsp9arysrx4k6zdkfs4nce4xj0gdcccefvpysxf3qccfmv3"), pick(r, net, rnet(r)))
			}
		})
	}
}
