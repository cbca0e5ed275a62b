package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/rand"
	"strings"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
)

func init() { suites["C24"] = suiteC24 }

const padN = 16

func codecWorld(init A) World {
	raw := init.hex("d")
	src := spare(raw, padN)
	var b *xbase.Buffer
	if len(raw) == 0 {
		b = xbase.NewBuffer()
	} else {
		b = xbase.NewBufferReader(src)
	}
	var outs [][]byte
	rip := ripemd160.New()
	srcNow := func() string {
		if !intact(src, raw, padN) {
			return "changed: " + hx(src[:len(src)+padN])
		}
		return hx(src)
	}
	wr := func() M { return M{"len": b.Len(), "seek": b.Seek()} }
	rd := func(v string, err error) M {
		if err != nil {
			return M{"ok": false, "seek": b.Seek()}
		}
		return M{"ok": true, "v": v, "seek": b.Seek()}
	}
	return func(op string, a A) M {
		switch op {
		case "w8":
			b.WriteU8(uint8(a.u64("v")))
			return wr()
		case "w16":
			b.WriteU16(uint32(a.u64("v")))
			return wr()
		case "w32":
			b.WriteU32(uint32(a.u64("v")))
			return wr()
		case "w64":
			b.WriteU64(a.u64("v"))
			return wr()
		case "wvi":
			b.WriteVarInt(a.u64("v"))
			return wr()
		case "wb":
			b.WriteBytes(a.hex("b"))
			return wr()
		case "wvb":
			b.WriteVarBytes(a.hex("b"))
			return wr()
		case "wvs":
			b.WriteVarString(string(a.hex("b")))
			return wr()
		case "r8":
			v, err := b.ReadU8()
			return rd(u64s(uint64(v)), err)
		case "r16":
			v, err := b.ReadU16()
			return rd(u64s(uint64(v)), err)
		case "r32":
			v, err := b.ReadU32()
			return rd(u64s(uint64(v)), err)
		case "r64":
			v, err := b.ReadU64()
			return rd(u64s(v), err)
		case "rvi":
			v, err := b.ReadVarInt()
			return rd(u64s(v), err)
		case "rb":
			v, err := b.ReadBytes(int(a.i64("n")))
			return rd(hx(v), err)
		case "rvb":
			v, err := b.ReadVarBytes()
			return rd(hx(v), err)
		case "rvs":
			v, err := b.ReadVarString()
			return rd(hx([]byte(v)), err)
		case "bytes":
			prev := hxs(outs)
			v := b.Bytes()
			outs = append(outs, v)
			return M{"b": hx(v), "prev": prev, "src": srcNow()}
		case "rest":
			prev := hxs(outs)
			v := b.Remaining()
			outs = append(outs, v)
			return M{"b": hx(v), "len": b.Len(), "seek": b.Seek(), "end": b.End(), "prev": prev, "src": srcNow()}
		case "reset":
			b.Reset()
			return wr()
		case "visize":
			return M{"n": xbase.VarIntSerializeSize(a.u64("v"))}
		case "b58enc":
			return M{"s": xbase.Base58Encode(a.hex("b"))}
		case "b58dec":
			return M{"b": hx(xbase.Base58Decode(string(a.hex("s"))))}
		case "b58cenc":
			d := spare(a.hex("b"), 8)
			s := xbase.Base58CheckEncode(d, byte(a.int("ver")))
			return M{"s": s, "same": intact(d, a.hex("b"), 8)}
		case "b58cdec":
			v, ver, err := xbase.Base58CheckDecode(string(a.hex("s")))
			return okm(err, M{"ver": int(ver), "b": hx(v)})
		case "b32enc":
			d := spare(a.hex("d"), 8)
			s, err := xbase.Bech32Encode(string(a.hex("h")), d)
			same := intact(d, a.hex("d"), 8)
			if err != nil {
				return M{"ok": false, "same": same}
			}
			return M{"ok": true, "s": s, "same": same}
		case "b32dec":
			h, d, err := xbase.Bech32Decode(string(a.hex("s")))
			return okm(err, M{"h": h, "d": hx(d)})
		case "swenc":
			d := spare(a.hex("p"), 8)
			s, err := xbase.WitnessEncode(string(a.hex("h")), byte(a.int("ver")), d)
			same := intact(d, a.hex("p"), 8)
			if err != nil {
				return M{"ok": false, "same": same}
			}
			return M{"ok": true, "s": s, "same": same}
		case "swdec":
			h, ver, p, err := xbase.WitnessDecode(string(a.hex("s")))
			return okm(err, M{"h": h, "ver": int(ver), "p": hx(p)})
		case "idenc":
			d := spare(a.hex("b"), 8)
			return M{"s": xbase.NewIDToString(d), "same": intact(d, a.hex("b"), 8)}
		case "iddec":
			v, err := xbase.NewIDFromString(string(a.hex("s")))
			return okm(err, M{"b": hx(v)})
		case "digests":
			d := spare(a.hex("b"), 8)
			return M{"sha256": hx(xcrypto.Sha256(d)), "double": hx(xcrypto.DoubleSha256(d)), "ripemd": hx(xcrypto.Ripemd160(d)), "hash160": hx(xcrypto.Hash160(d)), "same": intact(d, a.hex("b"), 8)}
		case "pbkdf2":
			var h func() hash.Hash
			switch a.str("alg") {
			case "sha1":
				h = sha1.New
			case "sha256":
				h = sha256.New
			default:
				h = sha512.New
			}
			pw, salt := spare(a.hex("pw"), 8), spare(a.hex("salt"), 8)
			k := pbkdf2.Key(pw, salt, a.int("iter"), a.int("n"), h)
			return M{"k": hx(k), "same": intact(pw, a.hex("pw"), 8) && intact(salt, a.hex("salt"), 8)}
		case "ripw":
			n, _ := rip.Write(a.hex("b"))
			return M{"n": n}
		case "rips":
			return M{"b": hx(rip.Sum(a.hex("pre")))}
		case "ripr":
			rip.Reset()
			return M{"n": 0}
		case "bigint":
			return M{"v": xcrypto.BytesToBigInt(a.hex("b")).String()}
		}
		panic("harness: unknown operation " + op)
	}
}

func ruint(r *rand.Rand) uint64 {
	edges := []uint64{0, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	if r.Intn(2) == 0 {
		return edges[r.Intn(len(edges))]
	}
	return r.Uint64() >> uint(r.Intn(64))
}

var varPrefix = [][]byte{{0xfd}, {0xfd, 1}, {0xfe, 1, 2, 3}, {0xff, 1, 2, 3, 4, 5, 6, 7}, {0xff, 255, 255, 255, 255, 255, 255, 255, 255}, {0xff, 255, 255, 255, 255, 255, 255, 255, 0x7f}, {0xfe, 255, 255, 255, 255}, {0xfd, 255, 255}, {0xfd, 2, 0, 9, 9}, {0xfe, 1, 0, 0, 0, 7}, {0xff, 1, 0, 0, 0, 0, 0, 0, 0, 7}}

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const b32chars = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// corrupt changes text a little: another character, a character added, removed, swapped or in another case.
func corrupt(r *rand.Rand, t string, chars string) string {
	b := []byte(t)
	if len(b) == 0 {
		return string(pick(r, chars[0], chars[len(chars)-1], '!'))
	}
	i := r.Intn(len(b))
	switch r.Intn(13) {
	case 0, 1, 2, 3:
		b[i] = chars[r.Intn(len(chars))]
	case 12: // the same but for one bit
		b[i] ^= 1 << pick(r, 7, 7, 5, 6, r.Intn(8))
	case 4:
		b[i] = byte(r.Intn(256))
	case 5:
		b = append(b[:i], b[i+1:]...)
	case 6:
		b = append(b[:i:i], append([]byte{chars[r.Intn(len(chars))]}, b[i:]...)...)
	case 7:
		if i+1 < len(b) {
			b[i], b[i+1] = b[i+1], b[i]
		}
	case 8:
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		} else if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	case 9:
		b = append([]byte{pick(r, byte('1'), ' ', chars[0])}, b...)
	case 10:
		b = append(b, pick(r, byte('1'), ' ', '\n', 0, chars[0]))
	case 11: // upper case
		for j := range b {
			if b[j] >= 'a' && b[j] <= 'z' {
				b[j] -= 32
			}
		}
	}
	return string(b)
}

func zlead(r *rand.Rand, n int) []byte {
	b := rbytes(r, n)
	for i := 0; i < r.Intn(4) && i < n; i++ {
		b[i] = 0
	}
	if r.Intn(10) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	if r.Intn(10) == 0 {
		for i := range b {
			b[i] = 255
		}
	}
	return b
}

func rhrp(r *rand.Rand) string {
	if r.Intn(2) == 0 { // any printable characters of one case, the ends of each range often
		b := make([]byte, 1+r.Intn(6))
		up := r.Intn(4) == 0
		for i := range b {
			b[i] = pick(r, byte(33+r.Intn(94)), byte(64+r.Intn(64)), pick(r, byte(63), 64, 91, 95, 96, 123, 126, 33, 58))
			if b[i] == 127 {
				b[i] = '_'
			}
			if up {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return pick(r, "bc", "tb", "a", "bcrt", "ltc", "t1", "1", "x1y1z", "?", "", "BC", "bC", "abc def", "an83characterlonghumanreadablepartthatcontainsthenumber1andtheexcludedcharactersbio", "\x7f", "~", "!", string([]byte{0x80}))
}

func suiteC24(t *Rec) {
	replay(t, codecWorld)
	for k := 0; k < t.N(150, 2500); k++ {
		r0 := t.rng(fmt.Sprintf("bufinit/%d", k))
		d := []byte{}
		if k%2 == 1 {
			for i := 0; i < 1+r0.Intn(5); i++ {
				d = append(d, pick(r0, pick(r0, varPrefix...), rbytes(r0, r0.Intn(12)), append([]byte{5}, rbytes(r0, 5)...))...)
			}
		}
		ini := M{"d": hx(d)}
		t.Run(fmt.Sprintf("buffer/%d", k), ini, func(s *S) {
			r, w := s.R, codecWorld(norm(ini))
			for i := 0; i < 30; i++ {
				switch r.Intn(20) {
				case 0:
					s.Call(w, "w8", M{"v": u64s(uint64(r.Intn(256)))})
				case 1:
					s.Call(w, "w16", M{"v": u64s(ruint(r) & 0xffff)})
				case 2:
					s.Call(w, "w32", M{"v": u64s(ruint(r) & 0xffffffff)})
				case 3:
					s.Call(w, "w64", M{"v": u64s(ruint(r))})
				case 4, 5:
					s.Call(w, "wvi", M{"v": u64s(ruint(r))})
				case 6:
					s.Call(w, "wb", M{"b": hx(rbytes(r, r.Intn(20)))})
				case 7:
					n := r.Intn(20)
					if r.Intn(12) == 0 {
						n = pick(r, 252, 253, 254, 255, 256, 300)
					}
					s.Call(w, pick(r, "wvb", "wvs"), M{"b": hx(rbytes(r, n))})
				case 8:
					s.Call(w, "wb", M{"b": hx(pick(r, varPrefix...))})
				case 9, 10, 11, 12, 13:
					s.Call(w, pick(r, "r8", "r16", "r32", "r64", "rvi"), M{"x": 0})
				case 14:
					n := int64(r.Intn(8))
					if r.Intn(4) == 0 {
						n = pick(r, int64(-1), -5, 1<<31-1, 1<<31, 1<<62, 1<<63-1, -1<<63, 1000)
					}
					s.Call(w, "rb", M{"n": i64s(n)})
				case 15, 16:
					s.Call(w, pick(r, "rvb", "rvs"), M{"x": 0})
				case 17:
					s.Call(w, "bytes", M{"x": 0})
				case 18:
					s.Call(w, "rest", M{"x": 0})
				case 19:
					if r.Intn(5) == 0 {
						s.Call(w, "reset", M{"x": 0})
					} else {
						s.Call(w, "visize", M{"v": u64s(ruint(r))})
					}
				}
			}
			s.Call(w, "rest", M{"x": 0})
		})
	}
	for k, n := range []int{65535, 65536, 70000} {
		ini := M{"d": ""}
		t.Run(fmt.Sprintf("bufferlong/%d", k), ini, func(s *S) {
			w := codecWorld(norm(ini))
			s.Call(w, "wvb", M{"b": hx(rbytes(s.R, n))})
			s.Call(w, "w8", M{"v": "7"})
			s.Call(w, "rvb", M{"x": 0})
			s.Call(w, "rvb", M{"x": 0})
			s.Call(w, "r8", M{"x": 0})
		})
	}
	none := M{"d": ""}
	// every character on its own, beside good ones and in place of one
	t.Run("chars", none, func(s *S) {
		w := codecWorld(norm(none))
		g58, g32 := []byte(xbase.Base58CheckEncode(zlead(s.R, 20), 0)), []byte("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4")
		for c := 0; c < 256; c++ {
			c := byte(c)
			s.Call(w, "b58dec", M{"s": hx([]byte{c})})
			s.Call(w, "b58dec", M{"s": hx([]byte{'2', c, 'z'})})
			i := s.R.Intn(len(g58))
			s.Call(w, "b58cdec", M{"s": hx(cat(g58[:i], []byte{c}, g58[i+1:]))})
			i = 3 + s.R.Intn(len(g32)-3)
			s.Call(w, "b32dec", M{"s": hx(cat(g32[:i], []byte{c}, g32[i+1:]))})
			s.Call(w, "b32dec", M{"s": hx(cat(g32[:1], []byte{c}, g32[2:]))})
		}
	})
	// sizes rarely met
	t.Run("sizes", none, func(s *S) {
		r, w := s.R, codecWorld(norm(none))
		for _, n := range []int{31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500} {
			for _, b := range [][]byte{make([]byte, n), append(make([]byte, n), rbytes(r, 1+r.Intn(5))...), append([]byte{1}, rbytes(r, n)...)} {
				if m := s.Call(w, "b58enc", M{"b": hx(b)}); m != nil {
					s.Call(w, "b58dec", M{"s": hx([]byte(m["s"].(string)))})
				}
				if m := s.Call(w, "b58cenc", M{"b": hx(b), "ver": pick(r, 0, 5, 255)}); m != nil {
					s.Call(w, "b58cdec", M{"s": hx([]byte(m["s"].(string)))})
				}
			}
			s.Call(w, "digests", M{"b": hx(rbytes(r, n))})
			s.Call(w, "bigint", M{"b": hx(rbytes(r, n))})
			s.Call(w, "ripw", M{"b": hx(rbytes(r, n))})
			s.Call(w, "pbkdf2", M{"alg": pick(r, "sha1", "sha256", "sha512"), "pw": hx(rbytes(r, n)), "salt": hx(rbytes(r, n)), "iter": 2, "n": n})
		}
		for _, n := range []int{511, 512, 513, 1000, 4095, 4096, 4097, 20000, 65536} {
			s.Call(w, "digests", M{"b": hx(rbytes(r, n))})
			s.Call(w, "ripw", M{"b": hx(rbytes(r, n))})
		}
		s.Call(w, "pbkdf2", M{"alg": "sha512", "pw": hx(rbytes(r, 9)), "salt": hx(rbytes(r, 9)), "iter": 2049, "n": 64})
		s.Call(w, "pbkdf2", M{"alg": "sha256", "pw": hx(rbytes(r, 9)), "salt": hx(rbytes(r, 9)), "iter": 300, "n": 1000})
		for n := 1; n <= 84; n++ {
			h := strings.Repeat(string(rune('a'+n%26)), n)
			if m := s.Call(w, "b32enc", M{"h": hx([]byte(h)), "d": hx(make([]byte, r.Intn(84)))}); m != nil && m["ok"] == true {
				s.Call(w, "b32dec", M{"s": hx([]byte(m["s"].(string)))})
			}
			if m := s.Call(w, "b32enc", M{"h": hx([]byte(h)), "d": ""}); m != nil && m["ok"] == true {
				s.Call(w, "b32dec", M{"s": hx([]byte(m["s"].(string)))})
			}
		}
	})
	for k := 0; k < t.N(60, 1500); k++ {
		t.Run(fmt.Sprintf("base58/%d", k), none, func(s *S) {
			r, w := s.R, codecWorld(norm(none))
			for i := 0; i < 12; i++ {
				b := zlead(r, pick(r, 0, 1, 2, 3, 4, 5, 20, 21, 25, 32, 33, 78, 82, r.Intn(120), pick(r, r.Intn(120), 128, 200, 256, 300)))
				m := s.Call(w, "b58enc", M{"b": hx(b)})
				if m != nil {
					s.Call(w, "b58dec", M{"s": hx([]byte(m["s"].(string)))})
					s.Call(w, "b58dec", M{"s": hx([]byte(corrupt(r, m["s"].(string), b58chars)))})
					s.Call(w, "b58cdec", M{"s": hx([]byte(m["s"].(string)))})
				}
				m = s.Call(w, "b58cenc", M{"b": hx(b), "ver": pick(r, 0, 5, 111, 196, 255, r.Intn(256))})
				if m != nil {
					t0 := m["s"].(string)
					s.Call(w, "b58cdec", M{"s": hx([]byte(t0))})
					for j := 0; j < 4; j++ {
						s.Call(w, "b58cdec", M{"s": hx([]byte(corrupt(r, t0, b58chars)))})
					}
				}
				// short bodies with a right checksum
				x := zlead(r, r.Intn(3))
				x = append(x, xcrypto.DoubleSha256(x)[:4]...)
				s.Call(w, "b58cdec", M{"s": hx([]byte(xbase.Base58Encode(x)))})
				s.Call(w, "b58cdec", M{"s": hx([]byte(pick(r, "", "1", "11111", "0", "l", "Il0O")))})
			}
		})
	}
	for k := 0; k < t.N(80, 2000); k++ {
		t.Run(fmt.Sprintf("bech32/%d", k), none, func(s *S) {
			r, w := s.R, codecWorld(norm(none))
			for i := 0; i < 10; i++ {
				d := make([]byte, pick(r, 0, 1, 2, 10, 33, 53, 75, 80, 81, 82, 83, r.Intn(90)))
				for j := range d {
					d[j] = byte(r.Intn(32))
				}
				if len(d) > 0 && r.Intn(10) == 0 {
					d[r.Intn(len(d))] = pick(r, byte(32), 255, 33)
				}
				h := rhrp(r)
				m := s.Call(w, "b32enc", M{"h": hx([]byte(h)), "d": hx(d)})
				if m != nil && m["ok"] == true {
					t0 := m["s"].(string)
					s.Call(w, "b32dec", M{"s": hx([]byte(t0))})
					for j := 0; j < 4; j++ {
						s.Call(w, "b32dec", M{"s": hx([]byte(corrupt(r, t0, b32chars)))})
					}
					s.Call(w, "swdec", M{"s": hx([]byte(t0))})
				}
				p := zlead(r, pick(r, 0, 1, 2, 19, 20, 20, 21, 31, 32, 32, 33, 40, 41, r.Intn(50)))
				ver := pick(r, 0, 0, 0, 1, 2, 15, 16, 17, 31, 32, 255)
				m = s.Call(w, "swenc", M{"h": hx([]byte(pick(r, h, "bc", "tb"))), "ver": ver, "p": hx(p)})
				if m != nil && m["ok"] == true {
					t0 := m["s"].(string)
					s.Call(w, "swdec", M{"s": hx([]byte(t0))})
					for j := 0; j < 4; j++ {
						s.Call(w, "swdec", M{"s": hx([]byte(corrupt(r, t0, b32chars)))})
					}
				}
				// any symbols behind any version: paddings and lengths
				x := append([]byte{byte(pick(r, 0, 0, 1, 16, 17, 31))}, d...)
				if r.Intn(2) == 0 {
					n := pick(r, 32, 33, 34, 52, 53, 64, 65)
					x = x[:1]
					for j := 0; j < n; j++ {
						x = append(x, byte(r.Intn(32)))
					}
				}
				if len(x) > 1 && r.Intn(2) == 0 {
					x[len(x)-1] &= pick(r, byte(0), 16, 24, 28, 30)
				}
				for j := range x {
					x[j] &= 31
				}
				if m := s.Call(w, "b32enc", M{"h": hx([]byte("bc")), "d": hx(x)}); m != nil && m["ok"] == true {
					s.Call(w, "swdec", M{"s": hx([]byte(m["s"].(string)))})
				}
				s.Call(w, "b32dec", M{"s": hx([]byte(pick(r, "", "1", "a1", "11111111", "a1lqfn3a", "A1LQFN3A", "a1Lqfn3a", "1qzzfhee", "pzry9x0s0muk", "li1dgmt3", "a12uel5l", "A12UEL5L", "?1ezyfcl", "split1checkupstagehandshakeupstreamerranterredcaperred2y9e3w", "de1lg7wt\xff")))})
			}
		})
	}
	for k := 0; k < t.N(20, 300); k++ {
		t.Run(fmt.Sprintf("digest/%d", k), none, func(s *S) {
			r, w := s.R, codecWorld(norm(none))
			for i := 0; i < 10; i++ {
				n := pick(r, 0, 1, 32, 54, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, r.Intn(400))
				b := rbytes(r, n)
				s.Call(w, "digests", M{"b": hx(b)})
				s.Call(w, "idenc", M{"b": hx(b)})
				if r.Intn(2) == 0 {
					b = rbytes(r, 32)
				}
				s.Call(w, "idenc", M{"b": hx(b)})
				s.Call(w, "iddec", M{"s": hx([]byte(pick(r, hx(b), hx(b)+"0", "zz"+hx(b), fmt.Sprintf("%X", b), " "+hx(b))))})
				s.Call(w, "bigint", M{"b": hx(b)})
				s.Call(w, "ripw", M{"b": hx(rbytes(r, pick(r, 0, 1, 7, 8, 9, 55, 56, 57, 63, 64, 65, 128, r.Intn(150))))})
				s.Call(w, "rips", M{"pre": hx(rbytes(r, r.Intn(3)))})
				if r.Intn(5) == 0 {
					s.Call(w, "ripr", M{"x": 0})
				}
				s.Call(w, "pbkdf2", M{"alg": pick(r, "sha1", "sha256", "sha512"), "pw": hx(rbytes(r, pick(r, 0, 1, 20, 63, 64, 65, 127, 128, 129))), "salt": hx(rbytes(r, r.Intn(40))), "iter": pick(r, 1, 1, 2, 3, 17), "n": pick(r, 0, 1, 19, 20, 21, 32, 33, 63, 64, 65, 100)})
			}
		})
	}
}
