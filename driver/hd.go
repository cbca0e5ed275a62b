package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore/bip32"
)

func init() { suites["C10"] = suiteC10 }

func showHd(k *bip32.HDKey) M {
	m := M{"ok": true, "main": k.ToString(network.MainNet), "test": k.ToString(network.TestNet),
		"pub": hx(k.PublicKey().SerializeCompressed()), "prv": ""}
	if p := k.PrivateKey(); p != nil {
		m["prv"] = hx(p.Serialize())
	}
	return m
}

func hdWorld(init A) World {
	keys := []*bip32.HDKey{bip32.NewHDKey(init.hex("seed"))}
	give := func(k *bip32.HDKey, err error) M {
		if err != nil {
			return M{"ok": false}
		}
		keys = append(keys, k)
		return showHd(k)
	}
	return func(op string, a A) M {
		key := func() *bip32.HDKey { return keys[a.int("k")-1] }
		switch op {
		case "seed":
			b := spare(a.hex("seed"), 64)
			k := bip32.NewHDKey(b)
			if !intact(b, a.hex("seed"), 64) {
				return M{"ok": false, "seed": "altered"}
			}
			for i := range b {
				b[i] = 0xff
			}
			return give(k, nil)
		case "rand":
			return give(bip32.NewHDKeyRand())
		case "child":
			i, err := strconv.ParseUint(a.str("i"), 10, 32)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return give(key().Derive(uint32(i)))
		case "path":
			return give(key().DeriveByPath(a.str("path")))
		case "neuter":
			return give(key().HDPublicKey(), nil)
		case "show":
			return showHd(key())
		case "parse":
			return give(bip32.NewHDKeyFromString(string(a.hex("s"))))
		}
		panic("harness: unknown operation " + op)
	}
}

func suiteC10(t *Rec) {
	replay(t, hdWorld)
	// seeds whose master key or first children have leading zeros in one place or another
	var seeds []string
	have := map[string]int{}
	for i := 0; i < t.N(3000, 30000) && len(seeds) < t.N(24, 120); i++ {
		seed := unhx(fmt.Sprintf("%032x", i))
		k := bip32.NewHDKey(seed)
		c, err := k.Derive(0)
		h, err2 := k.Derive(bip32.HardenedKeyStart)
		if err != nil || err2 != nil {
			continue
		}
		for n, x := range []*bip32.HDKey{k, c, h} {
			raw := xbase.Base58Decode(x.ToString(network.MainNet))
			if len(raw) != 82 {
				have[fmt.Sprint("short", n)]++
				if have[fmt.Sprint("short", n)] <= 3 {
					seeds = append(seeds, hx(seed))
				}
				continue
			}
			for what, b := range map[string]byte{"cc": raw[13], "key": raw[46], "fp": raw[5], "x": x.PublicKey().SerializeCompressed()[1]} {
				if b == 0 {
					if id := fmt.Sprint(what, n); have[id] < t.N(2, 10) {
						have[id]++
						seeds = append(seeds, hx(seed))
					}
				}
			}
		}
	}
	for n, k := range [][2][]byte{{}, {make([]byte, 32), bytesOf(1, 32)}, {append(make([]byte, 30), 1, 2), nil}, {append([]byte{1, 2}, make([]byte, 30)...), nil}, {append([]byte{0, 0, 7}, make([]byte, 29)...), nil},
		{bytesOf(255, 32), new(big.Int).Sub(secN, big.NewInt(1)).Bytes()}, {nil, append(make([]byte, 31), 1)}} {
		t.Run(fmt.Sprintf("rare/%d", n), M{"seed": "00"}, func(s *S) { rareHdSession(s, k[0], k[1]) })
	}
	for n := range rareScalars {
		t.Run(fmt.Sprintf("rarekey/%d", n), M{"seed": "00"}, func(s *S) { rareHdSession(s, nil, rareScalars[n].FillBytes(make([]byte, 32))) })
	}
	t.Par(t.N(160, 3000), func(n int) {
		r0 := t.rng(fmt.Sprintf("hdinit/%d", n))
		seed := hx(rbytes(r0, pick(r0, 16, 32, 64, 0, 1, r0.Intn(300))))
		if n < len(seeds) {
			seed = seeds[n]
		}
		t.Run(fmt.Sprintf("hd/%d", n), M{"seed": seed}, func(s *S) { hdSession(s, seed) })
	})
}

func hdSession(s *S, seed string) {
	r := s.R
	w := hdWorld(A{"seed": seed})
	texts := []string{}
	n := 1
	num := func() string {
		return pick(r, "0", "1", "2", "2147483647", "2147483648", "2147483649", "4294967295", strconv.FormatUint(uint64(r.Uint32()), 10), strconv.Itoa(r.Intn(100000)))
	}
	for i := 0; i < 22; i++ {
		var x M
		k := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			k = n
		}
		switch r.Intn(12) {
		case 0, 1, 2:
			x = s.Call(w, "child", M{"k": k, "i": num()})
		case 3, 4:
			p := "m"
			for d := r.Intn(6); d > 0; d-- {
				if r.Intn(2) == 0 {
					p += "/" + num()
				} else {
					p += "/" + strconv.Itoa(r.Intn(1<<31)) + pick(r, "'", "'", "")
				}
			}
			switch r.Intn(6) {
			case 0: // spoil it: two bytes of what paths are made of, or anything
				b := []byte(p)
				for j := 0; j < 1+r.Intn(2); j++ {
					at := r.Intn(len(b) + 1)
					c := pick(r, '/', '\'', 'm', '0', ' ', '-', '+', '9', 'h', '_')
					b = append(b[:at], append([]byte{byte(c)}, b[at:]...)...)
				}
				p = string(b)
			case 1:
				p = p + "/" + strings.Repeat("0", r.Intn(30)) + num() + pick(r, "", "0", "00000", "'")
			}
			x = s.Call(w, "path", M{"k": k, "path": p})
		case 5:
			x = s.Call(w, "neuter", M{"k": k})
		case 6:
			x = s.Call(w, "show", M{"k": k})
			if x == nil {
				return
			}
			texts = append(texts, x["main"].(string), x["test"].(string))
			continue
		case 7, 8:
			if len(texts) == 0 {
				continue
			}
			t := texts[r.Intn(len(texts))]
			switch r.Intn(4) {
			case 0:
				t = corrupt(r, t, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl")
			case 1, 2: // corrupt what is inside, with a matching checksum
				b := xbase.Base58Decode(t)
				if len(b) != 82 {
					continue
				}
				b = b[:78]
				b[r.Intn(78)] ^= 1 << uint(r.Intn(8))
				if r.Intn(3) == 0 {
					copy(b[45:], append([]byte{byte(r.Intn(5))}, rscalar(r).FillBytes(make([]byte, 32))...))
				}
				t = xbase.Base58Encode(append(b, sha(sha(b))[:4]...))
			}
			x = s.Call(w, "parse", M{"s": hx([]byte(t))})
		case 9:
			x = s.Call(w, "rand", M{})
		case 10:
			x = s.Call(w, "seed", M{"seed": hx(rbytes(r, pick(r, 16, 32, 64)))})
		default:
			if n > 1 {
				s.Call(w, "show", M{"k": 1 + r.Intn(n)})
			}
			continue
		}
		if x == nil {
			return
		}
		if x["ok"] == true {
			n++
		}
	}
}

// rareHdSession imports a key and derives where numbers are short: with the
// parent of rareHd (whose numbers they are) or a key of one's own.
func rareHdSession(s *S, cc, d []byte) {
	r, w := s.R, hdWorld(A{"seed": "00"})
	all := cc == nil && d == nil
	c0, d0 := rareParent()
	if cc == nil {
		cc = c0
	}
	if d == nil {
		d = d0
	}
	b := append(unhx("0488ade4"), rbytes(r, 9)...)
	b[4] = byte(r.Intn(200))
	b = append(append(append(b, cc...), 0), d...)
	n := 1
	call := func(op string, a M) int {
		if x := s.Call(w, op, a); x != nil && x["ok"] == true {
			n++
			return n
		}
		return 0
	}
	p := call("parse", M{"s": hx([]byte(xbase.Base58Encode(append(b, sha(sha(b))[:4]...))))})
	if p == 0 {
		return
	}
	q := call("neuter", M{"k": p})
	s.Call(w, "show", M{"k": p})
	idx := rareHd
	if !all {
		idx = []uint32{0, 1, bip32.HardenedKeyStart, bip32.HardenedKeyStart + 1}
	}
	for _, i := range idx {
		k := call("child", M{"k": p, "i": strconv.FormatUint(uint64(i), 10)})
		if k > 0 {
			call("child", M{"k": k, "i": "0"})
			call("child", M{"k": k, "i": "2147483648"})
			if o := call("neuter", M{"k": k}); o > 0 {
				call("child", M{"k": o, "i": "5"})
			}
			x := s.Call(w, "show", M{"k": k})
			if x != nil {
				call("parse", M{"s": hx([]byte(x["main"].(string)))})
			}
		}
		if i < bip32.HardenedKeyStart && q > 0 {
			if k := call("child", M{"k": q, "i": strconv.FormatUint(uint64(i), 10)}); k > 0 {
				call("child", M{"k": k, "i": "0"})
			}
		}
	}
}
