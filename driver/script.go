package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { suites["C04"] = suiteC04 }

func scriptType(x interface{}) string {
	switch x.(type) {
	case *xcore.PayToPubKeyHashScript, *xcore.PayToPubKeyHashAddress:
		return "p2pkh"
	case *xcore.PayToScriptHashScript, *xcore.PayToScriptHashAddress:
		return "p2sh"
	case *xcore.PayToWitnessV0PubKeyHashScript, *xcore.PayToWitnessV0PubKeyHashAddress:
		return "p2wpkh"
	case *xcore.PayToWitnessV0ScriptHashScript, *xcore.PayToWitnessV0ScriptHashAddress:
		return "p2wsh"
	}
	return fmt.Sprintf("%T", x)
}

func scriptOf(t string, h []byte) xcore.Script {
	switch t {
	case "p2pkh":
		return xcore.NewPayToPubKeyHashScript(h)
	case "p2sh":
		return xcore.NewPayToScriptHashScript(h)
	case "p2wpkh":
		return xcore.NewPayToWitnessV0PubKeyHashScript(h)
	case "p2wsh":
		return xcore.NewPayToWitnessV0ScriptHashScript(h)
	}
	panic("harness: script type")
}

func insList(is []xvm.Instruction) []M {
	r := []M{}
	for i := range is {
		r = append(r, M{"op": int(is[i].OpCode()), "d": hx(is[i].Data())})
	}
	return r
}

// scriptWorld: one builder, one reader, and everything else stateless.
func scriptWorld(A) World {
	b := xvm.NewScriptBuilder()
	var out [][]byte // scripts handed out so far
	var rd *xvm.ScriptReader
	return func(op string, a A) M {
		switch op {
		case "data":
			d := spare(a.hex("d"), 8)
			b.AddData(d)
			return M{"same": intact(d, a.hex("d"), 8)}
		case "op":
			b.AddOp(byte(a.int("op")))
			return M{}
		case "int":
			b.AddInt64(a.i64("v"))
			return M{}
		case "load":
			b.Load(a.str("s"))
			return M{}
		case "reset":
			b.Reset()
			return M{}
		case "script":
			s, err := b.Script()
			prev := hxs(out)
			if err == nil {
				out = append(out, s)
			}
			return M{"ok": err == nil, "s": hx(s), "prev": prev}
		case "hash160":
			h, err := b.Hash160()
			return M{"ok": err == nil, "h": hx(h)}
		case "parse":
			p := spare(a.hex("p"), 4)
			is, err := xvm.NewScriptReader(p).AllInstructions()
			if err != nil {
				return M{"ok": false, "same": intact(p, a.hex("p"), 4)}
			}
			return M{"ok": true, "ins": insList(is), "same": intact(p, a.hex("p"), 4)}
		case "open":
			rd = xvm.NewScriptReader(a.hex("p"))
			return M{}
		case "next":
			i, err := rd.NextInstruction()
			if err != nil {
				return M{"k": "err"}
			}
			if i == nil {
				return M{"k": "end"}
			}
			return M{"k": "ok", "op": int(i.OpCode()), "d": hx(i.Data()), "rest": rd.DisasmRemaining()}
		case "disasm":
			return M{"s": xvm.DisasmString(a.hex("p"))}
		case "remove":
			p := spare(a.hex("p"), 4)
			q := xvm.RemoveOpcode(p, byte(a.int("op")))
			return M{"s": hx(q), "same": intact(p, a.hex("p"), 4)}
		case "numenc":
			n := xvm.ScriptNum(a.i64("v"))
			return M{"b": hx(n.Bytes()), "i32": i64s(int64(n.Int32()))}
		case "numdec":
			n, err := xvm.MakeScriptNum(a.hex("b"), a.int("max"))
			return okm(err, M{"v": i64s(int64(n))})
		case "tmpl":
			s := scriptOf(a.str("t"), a.hex("h"))
			raw, err := s.GetRawLockingScriptBytes()
			if err != nil {
				return M{"ok": false}
			}
			ver := "base"
			if s.GetScriptVersion() == xcore.WITNESS_V0 {
				ver = "v0"
			}
			al, err := s.GetAddress().LockingScript()
			if err != nil {
				return M{"ok": false}
			}
			return M{"ok": true, "s": hx(raw), "ver": ver, "addr": scriptType(s.GetAddress()), "addrscript": hx(al), "addrhash": hx(s.GetAddress().Hash160())}
		case "final":
			s := scriptOf(a.str("t"), a.hex("h"))
			f, err := s.GetFinalLockingScriptBytes(a.hex("redeem"))
			if err != nil {
				return M{"ok": false}
			}
			c, err := s.GetWitnessScriptCode(a.hex("redeem"))
			return okm(err, M{"s": hx(f), "code": hx(c)})
		case "unlock":
			s := scriptOf(a.str("t"), a.hex("h"))
			var ps []xcore.PubKeySign
			for _, x := range a.objs("signs") {
				ps = append(ps, xcore.PubKeySign{PubKey: x.hex("k"), Signature: x.hex("s")})
			}
			u, err := s.GetRawUnlockingScriptBytes(ps, a.hex("redeem"))
			if err != nil {
				return M{"ok": false}
			}
			w, err := s.GetWitnessUnlockingScriptBytes(ps, a.hex("redeem"))
			return okm(err, M{"u": hx(u), "w": hxs(w)})
		case "wit2unlock":
			s := scriptOf(a.str("t"), a.hex("h"))
			u, err := s.WitnessToUnlockingScriptBytes(a.hexes("w"))
			return okm(err, M{"u": hx(u)})
		case "multisig":
			ks := a.hexes("keys")
			p := xcore.NewPayToMultiSigScript(a.int("m"), ks...)
			s, err := p.GetLockingScriptBytes()
			g, err2 := xcore.GenMultiSigScript(a.int("m"), ks...)
			h, err3 := p.Hash160()
			h2, err4 := p.Sha256()
			if err != nil || err2 != nil || err3 != nil || err4 != nil {
				return M{"ok": err == nil || err2 == nil || err3 == nil || err4 == nil}
			}
			return M{"ok": true, "s": hx(s), "g": hx(g), "h160": hx(h), "h256": hx(h2)}
		case "classify":
			s, err := xcore.ParseLockingScript(a.hex("p"))
			if err != nil {
				return M{"ok": false}
			}
			return M{"ok": true, "t": scriptType(s), "h": hx(s.GetAddress().Hash160())}
		}
		panic("harness: op " + op)
	}
}

var pushLens = []int{0, 1, 2, 3, 16, 17, 20, 32, 33, 65, 74, 75, 76, 77, 78, 127, 128, 254, 255, 256, 257, 520, 521}

var ints64 = []int64{0, 1, -1, 2, -2, 15, 16, 17, 18, -15, -16, -17, 75, 76, 81, 126, 127, 128, 129, -126, -127, -128, -129, 254, 255, 256, 257, -254, -255, -256, -257,
	32766, 32767, 32768, 32769, -32767, -32768, -32769, 65534, 65535, 65536, -65535, -65536, 8388607, 8388608, -8388607, -8388608, 16777215, 16777216,
	2147483646, 2147483647, 2147483648, -2147483647, -2147483648, -2147483649, 4294967295, 4294967296, -4294967295, -4294967296,
	1<<39 - 1, 1 << 39, 1<<47 - 1, 1 << 47, 1<<55 - 1, 1 << 55, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1 << 62, 1<<63 - 1, -1 << 63, -1<<63 + 1}

func rint64(r *rand.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return pick(r, ints64...)
	case 1:
		return pick(r, ints64...) + int64(r.Intn(5)) - 2
	}
	v := int64(r.Uint64() >> uint(r.Intn(64)))
	if r.Intn(2) == 0 {
		return -v
	}
	return v
}

func rdata(r *rand.Rand) []byte {
	switch r.Intn(4) {
	case 0:
		return []byte{byte(r.Intn(256))}
	case 1:
		return []byte{pick(r, byte(0), 1, 2, 15, 16, 17, 0x80, 0x81, 0x82, 0xff)}
	case 2:
		return rbytes(r, pick(r, pushLens...))
	}
	return rbytes(r, r.Intn(40))
}

var opList = []byte{0, 79, 81, 82, 95, 96, 99, 100, 103, 104, 106, 110, 111, 117, 118, 124, 130, 135, 136, 147, 169, 172, 173, 174, 175}

func loadText(r *rand.Rand) string {
	names := []string{"OP_0", "OP_FALSE", "OP_TRUE", "OP_1", "OP_2", "OP_15", "OP_16", "OP_1NEGATE", "OP_DUP", "OP_HASH160", "OP_EQUALVERIFY", "OP_CHECKSIG", "OP_IF", "OP_ENDIF", "OP_CHECKMULTISIG", "OP_RETURN", "OP_PUSHDATA1", "OP_DATA_1", "OP_DATA_75", "OP_NOP2", "OP_NOP3", "OP_ADD", "OP_3DUP"}
	var toks []string
	for i := 0; i < r.Intn(7); i++ {
		switch r.Intn(6) {
		case 0, 1:
			toks = append(toks, pick(r, names...))
		case 2:
			toks = append(toks, i64s(rint64(r)))
		case 3:
			toks = append(toks, "0x"+hx(rbytes(r, pick(r, r.Intn(6), r.Intn(6), r.Intn(6), r.Intn(100), 255, 256, 257, 300, 520, 521))))
		case 4:
			toks = append(toks, "'"+hx(rbytes(r, 1+r.Intn(90)))+"'")
		case 5:
			toks = append(toks, "'"+hx(rdata(r))+"'")
		}
	}
	if r.Intn(6) == 0 {
		toks = append(toks, pick(r, "OP_NOPE", "0x0", "0xzz", "9223372036854775808", "''", "", "op_dup", "--1"))
		if r.Intn(2) == 0 {
			toks = append(toks, "OP_1")
		}
	}
	var sb strings.Builder
	for i, k := range toks {
		if i > 0 {
			sb.WriteString(pick(r, " ", " ", "\n", "\t"))
		}
		sb.WriteString(k)
	}
	return sb.String()
}

// anyScript: random program text, canonical or not, sometimes cut short.
func anyScript(r *rand.Rand) []byte {
	var p []byte
	for i := 0; i < r.Intn(9); i++ {
		switch r.Intn(8) {
		case 0, 1, 2:
			p = append(p, pick(r, opList...))
		case 3:
			p = append(p, push(rdata(r))...)
		case 4:
			d := rbytes(r, r.Intn(80))
			p = append(p, byte(76), byte(len(d)))
			p = append(p, d...)
		case 5:
			d := rbytes(r, r.Intn(300))
			p = append(p, push2(d)...)
		case 6:
			d := rbytes(r, r.Intn(60))
			p = append(p, push4(d)...)
		case 7:
			p = append(p, byte(r.Intn(256)))
		}
	}
	if len(p) > 0 && r.Intn(6) == 0 {
		p = p[:r.Intn(len(p))]
	}
	return p
}

func templ(r *rand.Rand) []byte {
	h20, h32 := rbytes(r, 20), rbytes(r, 32)
	p := pick(r, cat([]byte{118, 169, 20}, h20, []byte{136, 172}), cat([]byte{169, 20}, h20, []byte{135}), cat([]byte{0, 20}, h20), cat([]byte{0, 32}, h32))
	switch r.Intn(12) {
	case 0: // one byte changed
		p[r.Intn(len(p))] ^= byte(1 << uint(r.Intn(8)))
	case 1: // another length
		i := r.Intn(len(p))
		p = cat(p[:i], []byte{byte(r.Intn(256))}, p[i:])
	case 2:
		i := r.Intn(len(p))
		p = cat(p[:i], p[i+1:])
	case 3: // non-canonical push of the hash
		p = pick(r, cat([]byte{118, 169, 76, 20}, h20, []byte{136, 172}), cat([]byte{169, 77, 20, 0}, h20, []byte{135}), cat([]byte{0, 76, 20}, h20), cat([]byte{0, 78, 32, 0, 0, 0}, h32))
	case 4:
		p = append(p, pick(r, opList...))
	case 5:
		p = cat([]byte{pick(r, opList...)}, p)
	case 6: // other lengths and versions
		p = pick(r, cat([]byte{0, 33}, h32, []byte{1}), cat([]byte{81, 32}, h32), cat([]byte{0, 19}, h20[:19]), cat([]byte{0, 21}, h20, []byte{1}), cat([]byte{81, 20}, h20), cat([]byte{118, 169, 32}, h32, []byte{136, 172}), cat([]byte{169, 32}, h32, []byte{135}))
	case 7:
		p = pick(r, cat([]byte{118, 169, 20}, h20, []byte{135, 172}), cat([]byte{118, 169, 20}, h20, []byte{136, 173}), cat([]byte{169, 20}, h20, []byte{136}), cat([]byte{118, 118, 20}, h20, []byte{136, 172}))
	}
	return p
}

func suiteC04(t *Rec) {
	replay(t, scriptWorld)
	for k := 0; k < t.N(120, 1500); k++ {
		t.Run(fmt.Sprintf("build/%d", k), M{}, func(s *S) {
			r, w := s.R, scriptWorld(nil)
			for i := 0; i < 25; i++ {
				switch r.Intn(12) {
				case 0, 1, 2, 3:
					s.Call(w, "data", M{"d": hx(rdata(r))})
				case 4, 5:
					s.Call(w, "op", M{"op": int(pick(r, opList...))})
				case 6, 7:
					s.Call(w, "int", M{"v": i64s(rint64(r))})
				case 8:
					s.Call(w, "load", M{"s": loadText(r)})
				case 9:
					if r.Intn(4) == 0 {
						s.Call(w, "reset", M{})
					}
				default:
					m := s.Call(w, "script", M{})
					if m != nil {
						p := m["s"].(string)
						s.Call(w, "parse", M{"p": p})
						if r.Intn(3) == 0 {
							s.Call(w, "disasm", M{"p": p})
							s.Call(w, "remove", M{"p": p, "op": int(pick(r, opList...))})
						}
					}
				}
			}
			s.Call(w, "script", M{})
			s.Call(w, "hash160", M{})
		})
	}
	for k, n := range []int{75, 76, 255, 256, 65535, 65536, 65537, 131072, 200001} {
		t.Run(fmt.Sprintf("long/%d", k), M{}, func(s *S) {
			w := scriptWorld(nil)
			d := rbytes(s.R, n)
			s.Call(w, "data", M{"d": hx(d)})
			s.Call(w, "op", M{"op": 118})
			m := s.Call(w, "script", M{})
			if m != nil {
				s.Call(w, "parse", M{"p": m["s"]})
				s.Call(w, "remove", M{"p": m["s"], "op": 118})
				s.Call(w, "disasm", M{"p": m["s"]})
			}
		})
	}
	for _, n := range []int{100, 201, 255, 256, 257, 520, 1001} {
		t.Run(fmt.Sprintf("many/%d", n), M{}, func(s *S) {
			r, w := s.R, scriptWorld(nil)
			var p []byte
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					p = append(p, push(rbytes(r, 1+r.Intn(3)))...)
				} else {
					p = append(p, pick(r, opList...))
				}
			}
			s.Call(w, "parse", M{"p": hx(p)})
			s.Call(w, "disasm", M{"p": hx(p)})
			s.Call(w, "remove", M{"p": hx(p), "op": int(pick(r, opList...))})
		})
	}
	for k := 0; k < t.N(100, 1200); k++ {
		t.Run(fmt.Sprintf("read/%d", k), M{}, func(s *S) {
			r, w := s.R, scriptWorld(nil)
			for i := 0; i < 8; i++ {
				p := anyScript(r)
				s.Call(w, "parse", M{"p": hx(p)})
				s.Call(w, "disasm", M{"p": hx(p)})
				op := pick(r, opList...)
				if len(p) > 0 && r.Intn(2) == 0 {
					op = p[r.Intn(len(p))]
				}
				s.Call(w, "remove", M{"p": hx(p), "op": int(op)})
				if r.Intn(2) == 0 {
					s.Call(w, "open", M{"p": hx(p)})
					for j := 0; j < 12; j++ {
						m := s.Call(w, "next", M{})
						if m == nil || m["k"] != "ok" {
							break
						}
					}
				}
			}
		})
	}
	for k := 0; k < t.N(20, 200); k++ {
		t.Run(fmt.Sprintf("num/%d", k), M{}, func(s *S) {
			r, w := s.R, scriptWorld(nil)
			for i := 0; i < 60; i++ {
				v := rint64(r)
				if k == 0 && i < len(ints64) {
					v = ints64[i]
				}
				m := s.Call(w, "numenc", M{"v": i64s(v)})
				if m != nil {
					s.Call(w, "numdec", M{"b": m["b"], "max": pick(r, 4, 5, 8, 9)})
				}
				b := rbytes(r, r.Intn(7))
				if len(b) > 0 && r.Intn(2) == 0 {
					b[len(b)-1] = pick(r, byte(0), 0x80, 0x7f, 0x81, 1)
				}
				s.Call(w, "numdec", M{"b": hx(b), "max": pick(r, 0, 1, 3, 4, 4, 4, 5, 8)})
			}
		})
	}
	for k := 0; k < t.N(60, 600); k++ {
		t.Run(fmt.Sprintf("std/%d", k), M{}, func(s *S) {
			r, w := s.R, scriptWorld(nil)
			for i := 0; i < 12; i++ {
				s.Call(w, "classify", M{"p": hx(templ(r))})
				ty := pick(r, "p2pkh", "p2sh", "p2wpkh", "p2wsh")
				h := rbytes(r, 20)
				redeem := pick(r, rbytes(r, r.Intn(80)), []byte{}, []byte{81}, rbytes(r, 256))
				if ty == "p2wsh" {
					h = sha(redeem)
				}
				if r.Intn(6) == 0 {
					h[0] = 0
				}
				m := s.Call(w, "tmpl", M{"t": ty, "h": hx(h)})
				if m != nil && m["ok"] == true {
					s.Call(w, "classify", M{"p": m["s"]})
				}
				s.Call(w, "final", M{"t": ty, "h": hx(h), "redeem": hx(redeem)})
				if ty == "p2wsh" && r.Intn(3) == 0 {
					redeem = append(append([]byte{}, redeem...), 81)
				}
				signs := []M{}
				for j := 0; j < 1+r.Intn(3); j++ {
					signs = append(signs, M{"k": hx(append([]byte{2}, rbytes(r, pick(r, 32, 64))...)), "s": hx(append([]byte{0x30}, rbytes(r, 69+r.Intn(3))...))})
				}
				if r.Intn(4) == 0 {
					signs = []M{}
				}
				s.Call(w, "unlock", M{"t": ty, "h": hx(h), "redeem": hx(redeem), "signs": signs})
				// multisig
				n := pick(r, 1, 2, 3, 4, 15, 16, 17, 18, 20)
				keys := []string{}
				for j := 0; j < n; j++ {
					keys = append(keys, hx(append([]byte{2}, rbytes(r, pick(r, 32, 32, 64))...)))
				}
				if r.Intn(4) == 0 { // a key that counts twice
					keys[r.Intn(n)] = keys[r.Intn(n)]
				}
				mm := 1 + r.Intn(n)
				if r.Intn(8) == 0 {
					mm = n + 1 + r.Intn(3)
				}
				s.Call(w, "multisig", M{"m": mm, "keys": keys})
			}
		})
	}
}
