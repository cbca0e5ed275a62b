package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	"github.com/keyfuse/tokucore/xvm"
)

// ---- the signature callbacks of spec/StubEnv.tla ----
type accept struct {
	sig, key string
	ht       byte
}

func stubHash(ht byte) ([]byte, error) {
	if ht == 0xEE {
		return nil, errors.New("refused hash type")
	}
	return []byte{ht, 0x77}, nil
}

func stubEngine(mode string, acc map[accept]bool) *xvm.Engine {
	e := xvm.NewEngine()
	if mode == "none" {
		return e
	}
	if mode != "nohash" {
		e.SetSigHashFn(stubHash)
	}
	if mode == "noverify" {
		return e
	}
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if mode == "table" {
			if len(hash) == 2 && hash[1] == 0x77 && acc[accept{string(sig), string(pub), hash[0]}] {
				return nil
			}
			return errors.New("no")
		}
		if bytes.Equal(sig, append(append([]byte{}, pub...), hash...)) {
			return nil
		}
		return errors.New("no")
	})
	return e
}

func accList(acc map[accept]bool) []interface{} {
	r := []interface{}{}
	for _, k := range sortedAcc(acc) {
		r = append(r, []interface{}{hx([]byte(k.sig)), hx([]byte(k.key)), int(k.ht)})
	}
	return r
}

func sortedAcc(acc map[accept]bool) []accept {
	var ks []accept
	for k := range acc {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if fmt.Sprint(ks[j]) < fmt.Sprint(ks[i]) {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func stubSig(key []byte, ht byte) []byte {
	return append(append([]byte{}, key...), ht, 0x77, ht)
}

func traceOf(e *xvm.Engine) []M {
	tr := []M{}
	for _, t := range e.Traces() {
		tr = append(tr, M{"s": int(t.Step), "o": t.Executed, "k": t.Stack, "m": t.Remaining})
	}
	return tr
}

func doExec(s *S, e *xvm.Engine, prog []byte, dbg bool) {
	s.Do("exec", M{"p": hx(prog), "dbg": dbg}, func() M {
		if dbg {
			e.EnableDebug()
		}
		err := e.Execute(prog)
		tr := []M{}
		if dbg {
			tr = traceOf(e)
		}
		return M{"ok": err == nil, "tr": tr}
	})
}

func doVerify(s *S, e *xvm.Engine, u, l []byte, dbg bool) {
	s.Do("verify", M{"u": hx(u), "l": hx(l), "dbg": dbg}, func() M {
		us, ls := spare(u, 40), spare(l, 40)
		if dbg {
			e.EnableDebug()
		}
		err := e.Verify(us, ls)
		tr := []M{}
		if dbg {
			tr = traceOf(e)
		}
		return M{"ok": err == nil, "tr": tr, "mod": !intact(us, u, 40) || !intact(ls, l, 40)}
	})
}

// ---- program generation ----
func push(d []byte) []byte {
	switch l := len(d); {
	case l == 0:
		return []byte{0}
	case l <= 75:
		return append([]byte{byte(l)}, d...)
	case l <= 255:
		return append([]byte{76, byte(l)}, d...)
	case l <= 65535:
		return append([]byte{77, byte(l), byte(l >> 8)}, d...)
	default:
		return append([]byte{78, byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)}, d...)
	}
}
func push1(d []byte) []byte { return append([]byte{76, byte(len(d))}, d...) }
func push2(d []byte) []byte { return append([]byte{77, byte(len(d)), byte(len(d) >> 8)}, d...) }
func push4(d []byte) []byte {
	l := len(d)
	return append([]byte{78, byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)}, d...)
}
func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

var numbers = [][]byte{
	{}, {1}, {2}, {0x10}, {0x11}, {0x7f}, {0x80}, {0x81}, {0xff}, {0}, {0x80, 0}, {0xff, 0}, {0xff, 0x80}, {0, 1}, {0, 0x81}, {0xff, 0x7f}, {0xff, 0xff},
	{0, 0x80, 0}, {0, 0x80, 0x80}, {0xff, 0xff, 0}, {0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff}, {0, 0, 0x80, 0}, {0, 0, 0x80, 0x80}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff},
	{0, 0, 0, 0x80, 0}, {0, 0, 0, 0x80, 0x80}, {0xff, 0xff, 0xff, 0xff, 0}, {1, 0}, {1, 0x80}, {0, 0}, {0, 0x80}, {1, 0, 0, 0}, {0xfe, 0xff, 0xff, 0xff}, {0, 0, 0, 0}, {0, 0, 0, 0x80}, {1, 2, 3, 4, 5},
}

var flow = []byte{99, 100, 103, 104}
var known = []byte{0, 1, 2, 75, 76, 77, 78, 79, 81, 82, 96, 99, 100, 103, 104, 106, 110, 111, 117, 118, 124, 130, 135, 136, 147, 169, 172, 173, 174, 175}

type gen struct {
	r     *rand.Rand
	depth int
	open  int
	keys  [][]byte
}

func (g *gen) pushTok() []byte {
	g.depth++
	r := g.r
	switch r.Intn(10) {
	case 0, 1:
		return []byte{0}
	case 2, 3:
		return []byte{81}
	case 4:
		return []byte{pick(r, byte(79), 82, 83, 96, byte(81+r.Intn(16)))}
	case 5, 6:
		d := pick(r, numbers...)
		if r.Intn(3) == 0 {
			return pick(r, push1, push2, push4)(d)
		}
		return push(d)
	case 7:
		return push(rbytes(r, pick(r, 1, 2, 3, 20, 33, 74, 75, 76, 77)))
	case 8:
		d := rbytes(r, pick(r, 0, 1, 5, 75, 76, 100))
		return pick(r, push1, push2, push4)(d)
	default:
		return push(pick(r, g.keys...))
	}
}

// tok returns the next piece of a program, mostly one that fits the estimated stack depth.
func (g *gen) tok() []byte {
	r := g.r
	if g.depth < 1 && r.Intn(8) != 0 {
		return g.pushTok()
	}
	switch r.Intn(18) {
	case 0, 1, 2, 3:
		return g.pushTok()
	case 4, 5:
		g.open++
		op := pick(r, byte(99), 100)
		if r.Intn(5) == 0 {
			g.depth--
			return []byte{op}
		}
		return []byte{pick(r, byte(0), 81), op}
	case 6:
		if g.open > 0 || r.Intn(6) == 0 {
			return []byte{103}
		}
		return []byte{118}
	case 7, 8:
		if g.open > 0 || r.Intn(6) == 0 {
			g.open--
			return []byte{104}
		}
		return []byte{117}
	case 9:
		g.depth--
		return []byte{pick(r, byte(135), 136, 147, 117)}
	case 10:
		g.depth++
		return []byte{pick(r, byte(118), 130)}
	case 11:
		if g.depth >= 3 {
			g.depth += 2
			return []byte{pick(r, byte(110), 111, 124)}
		}
		return g.pushTok()
	case 12:
		// arithmetic on interesting numbers
		g.depth++
		return cat(push(pick(r, numbers...)), push(pick(r, numbers...)), []byte{147})
	case 13:
		d := rbytes(r, r.Intn(5))
		return cat(push(d), []byte{169}, push(rbytes(r, 20)), []byte{135})
	case 14:
		// a signature check, good or bad
		g.depth++
		key := pick(r, g.keys...)
		sig := stubSig(pick(r, key, pick(r, g.keys...)), pick(r, byte(1), 2, 3, 0x81, 0, 0xEE))
		switch r.Intn(5) {
		case 0:
			sig = sig[:len(sig)-1]
		case 1:
			sig = nil
		}
		return cat(push(sig), push(key), []byte{pick(r, byte(172), 172, 173)})
	case 15:
		return g.multisig()
	case 16:
		return []byte{pick(r, known...)}
	default:
		if r.Intn(4) == 0 {
			return []byte{byte(r.Intn(256))}
		}
		return []byte{106}
	}
}

func count(n int) []byte {
	switch {
	case n == 0:
		return []byte{0}
	case n >= 1 && n <= 16:
		return []byte{byte(80 + n)}
	case n == -1:
		return []byte{79}
	}
	return push(xvm.ScriptNum(n).Bytes())
}

func (g *gen) multisig() []byte {
	r := g.r
	n := r.Intn(4)
	m := r.Intn(n + 1)
	p := [][]byte{{pick(r, byte(0), 0, 81)}}
	idx := r.Perm(n)[:m]
	if r.Intn(3) > 0 {
		for i := range idx {
			for j := i + 1; j < len(idx); j++ {
				if idx[j] < idx[i] {
					idx[i], idx[j] = idx[j], idx[i]
				}
			}
		}
	}
	ks := make([][]byte, n)
	for i := range ks {
		ks[i] = append([]byte{byte(i)}, pick(r, g.keys...)...)
	}
	for _, i := range idx {
		switch r.Intn(8) {
		case 0:
			p = append(p, []byte{0})
		case 1:
			p = append(p, push(rbytes(r, 3)))
		default:
			p = append(p, push(stubSig(ks[i], pick(r, byte(1), 1, 3, 0xEE))))
		}
	}
	mm, nn := m, n
	switch r.Intn(10) {
	case 0:
		mm += pick(r, -1, 1, 2)
	case 1:
		nn += pick(r, -1, 1, 2)
	case 2:
		mm = pick(r, -1, 1<<31-1, -(1<<31 - 1), 100)
	case 3:
		nn = pick(r, -1, 1<<31-1, -(1<<31 - 1), 100)
	}
	p = append(p, count(mm))
	for _, k := range ks {
		p = append(p, push(k))
	}
	p = append(p, count(nn), []byte{pick(r, byte(174), 174, 175)})
	g.depth++
	return cat(p...)
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, keys: [][]byte{{0xAA}, {0xBB, 1}, {0xCC, 2, 3}}}
}

func (g *gen) program(n int) []byte {
	var p []byte
	for i := g.r.Intn(4); i > 0; i-- {
		p = append(p, g.pushTok()...)
	}
	for i := 0; i < n; i++ {
		p = append(p, g.tok()...)
	}
	for g.open > 0 && g.r.Intn(12) > 0 {
		g.open--
		p = append(p, 104)
	}
	switch g.r.Intn(12) {
	case 0: // truncated push
		p = append(p, pick(g.r, []byte{5, 1, 2}, []byte{76}, []byte{76, 3, 1}, []byte{77, 1}, []byte{77, 2, 0, 9}, []byte{78, 1, 0, 0}, []byte{78, 0xff, 0xff, 0xff, 0xff}, []byte{78, 0, 0, 0, 0x80, 1})...)
	case 1, 2, 3, 4:
		p = append(p, 81)
	}
	return p
}

func init() {
	suites["C01"] = suiteC01
	suites["C02"] = suiteC02
	suites["C03"] = suiteC03
}

var stubInit = M{"mode": "stub", "acc": []int{}}
var noneInit = M{"mode": "none", "acc": []int{}}

// replayVM runs the cases TLC generated from the specification: {"u","l","ok"} or {"p","ok","k","mode"}.
func replayVM(t *Rec) {
	if t.cases == "" {
		return
	}
	n, bad := 0, 0
	lines(t.cases, func(b []byte) {
		var c struct {
			P, U, L, K string
			Ok         bool
		}
		if json.Unmarshal(b, &c) != nil {
			panic("bad case " + string(b))
		}
		n++
		func() {
			fail := func(got string) {
				bad++
				if bad <= 20 {
					fmt.Printf("MISMATCH %s got=%q\n", string(b), got)
				}
			}
			defer func() {
				if p := recover(); p != nil {
					fail(fmt.Sprint("panic: ", p))
				}
			}()
			e := stubEngine("stub", nil)
			if c.L != "" || c.U != "" {
				err := e.Verify(unhx(c.U), unhx(c.L))
				if (err == nil) != c.Ok {
					fail(fmt.Sprint(err))
				}
				return
			}
			e.EnableDebug()
			err := e.Execute(unhx(c.P))
			k := ""
			if tr := e.Traces(); len(tr) > 0 {
				k = tr[len(tr)-1].Stack
			}
			if (err == nil) != c.Ok || k != c.K {
				fail(fmt.Sprint(err, k))
			}
		}()
	})
	fmt.Printf("REPLAYED %d BAD %d\n", n, bad)
}

func suiteC01(t *Rec) {
	replayVM(t)
	vmDeep(t)
	// every byte as an opcode, on every small stack depth, with and without callbacks
	for _, mode := range []M{stubInit, noneInit} {
		for depth := 0; depth <= 7; depth++ {
			for variant := 0; variant < 3; variant++ {
				t.Run(fmt.Sprintf("op/%s/%d/%d", mode["mode"], depth, variant), mode, func(s *S) {
					for op := 0; op < 256; op++ {
						var p []byte
						for i := 0; i < depth; i++ {
							switch variant {
							case 0:
								p = append(p, 81)
							case 1:
								p = append(p, push(pick(s.R, numbers...))...)
							default:
								p = append(p, pick(s.R, []byte{0}, []byte{81}, push([]byte{0xAA}), push(stubSig([]byte{0xAA}, 1)))...)
							}
						}
						p = append(p, byte(op))
						if op >= 1 && op <= 75 {
							p = append(p, rbytes(s.R, op-s.R.Intn(2))...)
						}
						if op == 99 || op == 100 {
							p = append(p, pick(s.R, []byte{82, 104}, []byte{103, 83, 104}, []byte{104}, nil)...)
						}
						doExec(s, stubEngine(mode["mode"].(string), nil), p, true)
					}
				})
			}
		}
	}
	// branches: every nesting of conditionals up to a depth, with every kind of content
	t.Run("branches", stubInit, func(s *S) {
		for i := 0; i < t.N(600, 6000); i++ {
			g := newGen(s.R)
			var p []byte
			open := 0
			for k := 0; k < 3+s.R.Intn(14); k++ {
				switch s.R.Intn(9) {
				case 0, 1:
					p = append(p, pick(s.R, byte(0), 81), pick(s.R, byte(99), 100))
					open++
				case 2:
					p = append(p, 103)
				case 3:
					p = append(p, 104)
					open--
				case 4:
					// in an untaken branch these must do nothing
					p = append(p, pick(s.R, []byte{117}, []byte{136}, []byte{147}, []byte{106}, []byte{173}, []byte{174}, []byte{124}, []byte{111}, []byte{172})...)
				case 5:
					// data holding conditional opcodes
					p = append(p, push(pick(s.R, []byte{104}, []byte{103, 104}, []byte{99, 99}))...)
				default:
					p = append(p, g.pushTok()...)
				}
			}
			for ; open > 0 && s.R.Intn(10) > 0; open-- {
				p = append(p, 104)
			}
			if s.R.Intn(2) == 0 {
				p = append(p, 81)
			}
			doExec(s, stubEngine("stub", nil), p, true)
		}
	})
	for k := 0; k < 8; k++ {
		t.Run(fmt.Sprintf("random/%d", k), stubInit, func(s *S) {
			for i := 0; i < t.N(250, 4000); i++ {
				doExec(s, stubEngine("stub", nil), newGen(s.R).program(1+s.R.Intn(14)), true)
			}
		})
		t.Run(fmt.Sprintf("bytes/%d", k), stubInit, func(s *S) {
			for i := 0; i < t.N(100, 2000); i++ {
				p := make([]byte, s.R.Intn(12))
				for j := range p {
					if s.R.Intn(3) == 0 {
						p[j] = byte(s.R.Intn(256))
					} else {
						p[j] = pick(s.R, known...)
					}
				}
				doExec(s, stubEngine("stub", nil), p, true)
			}
		})
		t.Run(fmt.Sprintf("none/%d", k), noneInit, func(s *S) {
			for i := 0; i < t.N(30, 300); i++ {
				doExec(s, stubEngine(pick(s.R, "none", "nohash", "noverify"), nil), newGen(s.R).program(1+s.R.Intn(10)), true)
			}
		})
		// one engine for many runs: the verdict is that of a fresh one
		t.Run(fmt.Sprintf("reuse/%d", k), stubInit, func(s *S) {
			e := stubEngine("stub", nil)
			for i := 0; i < t.N(60, 600); i++ {
				doExec(s, e, newGen(s.R).program(1+s.R.Intn(8)), false)
			}
		})
		t.Run(fmt.Sprintf("num/%d", k), stubInit, func(s *S) {
			for i := 0; i < len(numbers)*len(numbers); i++ {
				if i%8 != k {
					continue
				}
				a, b := numbers[i/len(numbers)], numbers[i%len(numbers)]
				doExec(s, stubEngine("stub", nil), cat(push(a), push(b), []byte{147}), true)
				doExec(s, stubEngine("stub", nil), cat(push(a), push(b), []byte{pick(s.R, byte(135), 136), 118}), true)
			}
			for i, a := range numbers {
				if i%8 == k {
					for _, p := range [][]byte{cat(push(a)), cat(push(a), []byte{99, 81, 103, 82, 104}), cat(push(a), []byte{100, 81, 103, 82, 104}), cat(push(a), []byte{130})} {
						doExec(s, stubEngine("stub", nil), p, true)
					}
				}
			}
		})
		t.Run(fmt.Sprintf("stack/%d", k), stubInit, func(s *S) { stackSession(s, t.N(250, 2500)) })
	}
	t.Run("big", stubInit, func(s *S) {
		for _, n := range []int{75, 76, 77, 127, 128, 129, 255, 256, 257, 520, 521, 32767, 32768, 65535, 65536, 70000} {
			d := rbytes(s.R, n)
			doExec(s, stubEngine("stub", nil), cat(push(d), []byte{130}), true)
			if n < 1000 {
				doExec(s, stubEngine("stub", nil), cat(push(d), []byte{118, 169, 124, 169, 135}), true)
				doExec(s, stubEngine("stub", nil), cat([]byte{0, 99}, push(d), []byte{103, 81, 104}), true)
			}
		}
		for _, n := range []int{50, 200} {
			doExec(s, stubEngine("stub", nil), append(bytes.Repeat([]byte{0, 99}, n), append(bytes.Repeat([]byte{104}, n), 81)...), false)
			doExec(s, stubEngine("stub", nil), append(bytes.Repeat([]byte{81}, n), bytes.Repeat([]byte{147}, n-1)...), false)
		}
	})
}

// vmDeep runs programs that are long, or leave much on the stack: the end tells what was lost.
func vmDeep(t *Rec) {
	for _, n := range []int{100, 199, 201, 202, 255, 257, 300, 521, 999, 1000, 1001, 1025} {
		t.Run(fmt.Sprintf("deep/%d", n), stubInit, func(s *S) {
			rep := func(p []byte, n int) []byte { return bytes.Repeat(p, n) }
			e := func(ps ...[]byte) { doExec(s, stubEngine("stub", nil), cat(ps...), false) }
			sum := push(xvm.ScriptNum(n).Bytes())
			e(rep([]byte{81}, n), rep([]byte{147}, n-1), sum, []byte{135})
			e([]byte{82}, rep([]byte{81}, n), rep([]byte{117}, n), []byte{82, 136, 81})
			e([]byte{83}, rep([]byte{81}, n-1), rep([]byte{117}, n), []byte{117, 81})
			e(rep([]byte{81, 117}, n), []byte{pick(s.R, byte(0), 81)})
			e(rep([]byte{81, 117}, n), []byte{0})
			e([]byte{81}, rep([]byte{118, 135}, n), []byte{103})
			e([]byte{0}, rep([]byte{106}, n))
		})
	}
	// what is false, whatever its length
	t.Run("falsy", stubInit, func(s *S) {
		for _, n := range []int{1, 2, 3, 4, 5, 6, 8, 9, 16, 20, 31, 32, 33, 34, 64, 65, 75, 76, 80, 81, 255, 256, 520, 521, 1000} {
			z := make([]byte, n)
			at := func(i int, v byte) []byte {
				d := make([]byte, n)
				d[i] = v
				return d
			}
			for _, d := range [][]byte{z, at(n-1, 0x80), at(n-1, 1), at(n-1, 0x81), at(0, 1), at(0, 0x80), at(n/2, 0x80), at(s.R.Intn(n), byte(1+s.R.Intn(255)))} {
				doExec(s, stubEngine("stub", nil), push(d), false)
				doExec(s, stubEngine("stub", nil), cat(push(d), pick(s.R, []byte{99, 104, 81}, []byte{81, 135}, []byte{0, 147})), false)
				doVerify(s, stubEngine("stub", nil), push(d), pick(s.R, []byte{106}, []byte{118}, []byte{81, 117}), false)
			}
		}
	})
	// many keys, long keys and long signatures
	for k := 0; k < t.N(6, 40); k++ {
		t.Run(fmt.Sprintf("keys/%d", k), stubInit, func(s *S) {
			r := s.R
			for i := 0; i < 25; i++ {
				n := pick(r, 1, 2, 3, 5, 8, 14, 15, 16, 17, 19, 20, 21, 25, 33)
				m := pick(r, 1, n, 1+r.Intn(n), 1+r.Intn(n))
				ks := make([][]byte, n)
				for j := range ks {
					ks[j] = append([]byte{byte(j)}, rbytes(r, pick(r, 1, 2, 32, 64, 69, 70, 71, 72, 73, 90, 255))...)
				}
				p := [][]byte{{0}}
				idx := r.Perm(n)[:m]
				sort.Ints(idx)
				bad := -1
				if r.Intn(3) == 0 {
					bad = r.Intn(m)
				}
				for x, j := range idx {
					sg := stubSig(ks[j], pick(r, byte(1), 2, 3, 0x81))
					if x == bad {
						sg[r.Intn(len(sg)-2)] ^= 1
					}
					p = append(p, push(sg))
				}
				p = append(p, count(m))
				for _, key := range ks {
					p = append(p, push(key))
				}
				p = append(p, count(n), []byte{pick(r, byte(174), 174, 175)})
				doExec(s, stubEngine("stub", nil), cat(p...), false)
				key := ks[r.Intn(n)]
				sg := stubSig(key, 1)
				if r.Intn(3) == 0 {
					sg[r.Intn(len(sg)-2)] ^= 1
				}
				doExec(s, stubEngine("stub", nil), cat(push(sg), push(key), []byte{pick(r, byte(172), 173)}), false)
			}
		})
	}
}

func stackSession(s *S, n int) {
	st := xvm.NewStack()
	var other *xvm.Stack
	var dump func() []string
	dump = func() []string {
		r := []string{}
		for i := st.Depth() - 1; i >= 0; i-- {
			b, err := st.PeekByteArray(i)
			if err != nil {
				panic(err)
			}
			r = append(r, hx(b))
		}
		return r
	}
	do := func(op string, a M, f func() ([]byte, error)) {
		a["op"] = op
		s.Do("stack", a, func() M {
			v, err := f()
			val := ""
			if err == nil {
				val = hx(v)
			}
			return M{"ok": err == nil, "v": val, "s": dump(), "depth": st.Depth(), "str": st.String()}
		})
	}
	// every count on every depth around it, each slot distinguishable
	for _, f := range []struct {
		op string
		f  func(int) error
	}{{"dup", func(k int) error { return st.DupN(k) }}, {"drop", func(k int) error { return st.DropN(int32(k)) }}, {"swap", func(k int) error { return st.SwapN(int32(k)) }}} {
		for k := -1; k <= 4; k++ {
			for depth := 0; depth <= 9; depth++ {
				f, k := f, k
				do("clean", M{}, func() ([]byte, error) { st.Clean(); return nil, nil })
				for j := 0; j < depth; j++ {
					d := []byte{byte(16*j + s.R.Intn(16))}
					do("push", M{"v": hx(d)}, func() ([]byte, error) { st.PushByteArray(d); return nil, nil })
				}
				do(f.op, M{"n": k}, func() ([]byte, error) { return nil, f.f(k) })
			}
		}
	}
	for i := 0; i < n; i++ {
		k := s.R.Intn(5) - 1
		if s.R.Intn(8) == 0 {
			k = s.R.Intn(8)
		}
		switch s.R.Intn(14) {
		case 0, 1, 2:
			d := pick(s.R, numbers...)
			do("push", M{"v": hx(d)}, func() ([]byte, error) { st.PushByteArray(d); return nil, nil })
		case 3:
			v := pick(s.R, int64(0), 1, -1, 127, 128, -128, 255, 256, 32768, -32768, 1<<31-1, 1<<31, -(1 << 31), 1<<40, 1<<63-1, -(1<<63 - 1), s.R.Int63())
			do("pushint", M{"v": i64s(v)}, func() ([]byte, error) { st.PushInt(xvm.ScriptNum(v)); return nil, nil })
		case 4:
			b := s.R.Intn(2) == 0
			do("pushbool", M{"b": b}, func() ([]byte, error) { st.PushBool(b); return nil, nil })
		case 5:
			do("pop", M{}, func() ([]byte, error) { return st.PopByteArray() })
		case 6:
			do("popint", M{}, func() ([]byte, error) { v, err := st.PopInt(); return v.Bytes(), err })
		case 7:
			do("popbool", M{}, func() ([]byte, error) { v, err := st.PopBool(); return xvm.BoolBytes(v), err })
		case 8, 9:
			do("peek", M{"n": k}, func() ([]byte, error) { return st.PeekByteArray(k) })
		case 10:
			do("dup", M{"n": k}, func() ([]byte, error) { return nil, st.DupN(k) })
		case 11:
			do("drop", M{"n": k}, func() ([]byte, error) { return nil, st.DropN(int32(k)) })
		case 12:
			do("swap", M{"n": k}, func() ([]byte, error) { return nil, st.SwapN(int32(k)) })
		case 13:
			if s.R.Intn(6) == 0 {
				do("clean", M{}, func() ([]byte, error) { st.Clean(); return nil, nil })
			} else {
				// the copy goes on as the original; the original is then altered and must not show through
				other = st
				st = st.Copy()
				other.PushByteArray([]byte{9})
				other.Clean()
				other.PushByteArray([]byte{8})
			}
		}
	}
}

// ---- C02: unlocking against locking scripts ----
func suiteC02(t *Rec) {
	replayVM(t)
	for k := 0; k < 12; k++ {
		fresh := k%3 != 2
		t.Run(fmt.Sprintf("verify/%d", k), stubInit, func(s *S) {
			e := stubEngine("stub", nil)
			for i := 0; i < t.N(250, 3000); i++ {
				u, l := pair(s.R)
				if fresh {
					e = stubEngine("stub", nil)
				}
				doVerify(s, e, u, l, fresh)
			}
		})
	}
	t.Run("nocallbacks", noneInit, func(s *S) {
		for i := 0; i < t.N(100, 1000); i++ {
			u, l := pair(s.R)
			doVerify(s, stubEngine(pick(s.R, "none", "nohash", "noverify"), nil), u, l, true)
		}
	})
}

// pair makes a locking script and an unlocking script that solves it, cheats or is random.
func pair(r *rand.Rand) (u, l []byte) {
	g := newGen(r)
	key := pick(r, g.keys...)
	type lockT struct {
		lock  []byte
		solve []byte
	}
	mk := func() lockT {
		switch r.Intn(9) {
		case 0: // hash of a key and a signature
			return lockT{cat([]byte{118, 169}, push(hash160(key)), []byte{136, 172}), cat(push(stubSig(key, 1)), push(key))}
		case 1:
			return lockT{cat(push(key), []byte{172}), push(stubSig(key, 3))}
		case 2: // equality puzzle
			d := rbytes(r, 1+r.Intn(3))
			return lockT{cat(push(d), []byte{135}), push(d)}
		case 3: // two branches
			return lockT{cat([]byte{99}, push(key), []byte{172, 103, 82, 135, 104}), pick(r, cat(push(stubSig(key, 1)), []byte{81}), []byte{82, 0})}
		case 4: // multisig
			k2 := []byte{0xDD}
			return lockT{cat([]byte{82}, push(key), push(k2), []byte{82, 174}), cat([]byte{0}, push(stubSig(key, 1)), push(stubSig(k2, 2)))}
		case 5: // VERIFY form that leaves an empty stack
			return lockT{cat(push(key), []byte{173}), push(stubSig(key, 1))}
		case 6:
			return lockT{[]byte{81, 147, 82, 135}, []byte{81}}
		case 7:
			return lockT{cat([]byte{169}, push(hash160([]byte{7})), []byte{136, 81}), push([]byte{7})}
		default:
			return lockT{g.program(1 + r.Intn(5)), newGen(r).program(1 + r.Intn(3))}
		}
	}
	x := mk()
	l = x.lock
	sol := x.solve
	if r.Intn(5) < 2 { // wrap as pay to script hash
		redeem := x.lock
		l = cat([]byte{169}, push(hash160(redeem)), []byte{135})
		sol = cat(x.solve, push(redeem))
		switch r.Intn(10) {
		case 9: // as long as the template, with one byte that is not its
			bad := pick(r, []byte{0}, []byte{99}, []byte{186}, []byte{81})
			d := rbytes(r, 20)
			l = pick(r, cat([]byte{pick(r, byte(106), 118, 124)}, push(d), []byte{135}), cat([]byte{169, 117}, push(d[:18]), []byte{118, 135}),
				cat([]byte{169}, push(hash160(bad)), []byte{136}), cat([]byte{169}, push(d), []byte{117}))
			sol = pick(r, cat(x.solve, push(bad)), push(bad), push(d), cat(push(d), push(bad)), cat(push(d), []byte{81}))
		case 8: // a redeem script of the same form is only run
			bad := pick(r, []byte{5, 1}, []byte{0}, []byte{99}, []byte{186}, []byte{81, 117}, []byte{}, redeem)
			redeem := cat([]byte{169}, push(hash160(bad)), []byte{135})
			l = cat([]byte{169}, push(hash160(redeem)), []byte{135})
			sol = cat(x.solve, push(bad), push(redeem))
		case 0: // unusual spelling of the template: not pay to script hash
			l = cat([]byte{169}, push1(hash160(redeem)), []byte{135})
		case 1:
			l = cat([]byte{169}, push(hash160(redeem)), []byte{136, 81})
		case 2:
			l = cat([]byte{106, 169}, push(hash160(redeem)), []byte{135})
		case 3: // wrong redeem script with a good hash on the stack below
			sol = cat(x.solve, push(redeem), push(append(redeem, 106)))
		case 4: // redeem script that cannot be parsed or leaves false
			bad := pick(r, []byte{5, 1}, []byte{0}, []byte{99}, []byte{186}, []byte{81, 117}, []byte{})
			l = cat([]byte{169}, push(hash160(bad)), []byte{135})
			sol = push(bad)
			if r.Intn(2) == 0 {
				sol = cat([]byte{81}, sol)
			}
		case 5: // the template and something more: not pay to script hash
			bad := pick(r, redeem, []byte{0}, []byte{99}, []byte{186})
			l = cat([]byte{169}, push(hash160(bad)), []byte{135}, pick(r, []byte{106}, []byte{117, 81}, []byte{81}, []byte{0}, []byte{81, 135}))
			sol = cat(x.solve, push(bad))
		}
	}
	evil := pick(r, []byte{81}, []byte{81, 81}, push([]byte{81}), push([]byte{0}), push([]byte{186}))
	switch r.Intn(16) {
	case 0, 1, 2, 3, 4:
		u = sol
	case 5:
		u = cat(evil, sol)
	case 6: // open a branch over the locking script
		u = cat(sol, pick(r, []byte{0, 99}, []byte{81, 99}, []byte{81, 0, 99}, []byte{81, 100}, []byte{81, 81, 99, 103}, []byte{0, 99, 103, 99}))
	case 7: // swallow the locking script, or part of it, as data
		n := len(l)
		u = cat([]byte{81}, pick(r, []byte{byte(n)}, []byte{76, byte(n)}, []byte{77, byte(n), 0}, []byte{78, byte(n), 0, 0, 0}, []byte{76}, []byte{2}, []byte{1}, []byte{byte(n - 1)}))
	case 8:
		u = cat(sol, []byte{106})
	case 9:
		u = cat(sol, evil)
	case 10:
		u = nil
	case 11:
		u = cat(sol, []byte{pick(r, byte(117), 118, 104, 103, 186, 124)})
	case 12:
		u = newGen(r).program(1 + r.Intn(5))
	case 13:
		u = cat([]byte{0, 99}, sol, []byte{104})
	case 14:
		u = cat([]byte{81, 99}, sol, []byte{104})
	default:
		u = cat(sol[:len(sol)/2], evil, sol[len(sol)/2:])
	}
	return u, l
}

// ---- C03: signature opcodes against arbitrary verifiers ----
func suiteC03(t *Rec) {
	replayVM(t)
	for k := 0; k < t.N(60, 600); k++ {
		name := fmt.Sprintf("table/%d", k)
		r := t.rng(name + "/t")
		nk := pick(r, 1, 2, 3, 3, 4, 5, 8, 15, 16, 17, 20)
		keys := make([][]byte, nk)
		for i := range keys {
			keys[i] = append([]byte{byte(i)}, rbytes(r, r.Intn(3))...)
			if i > 0 && r.Intn(12) == 0 {
				keys[i] = keys[i-1]
			}
		}
		// signatures a key's owner could have made, some accepted by several keys
		acc := map[accept]bool{}
		type sg struct {
			core []byte
			ht   byte
		}
		var sigs []sg
		for i := range keys {
			for j := 0; j < 1+r.Intn(2); j++ {
				x := sg{append([]byte{0x30, byte(i), byte(j)}, rbytes(r, r.Intn(2))...), pick(r, byte(0), 1, 2, 3, 0x81, 0xff, 0xEE)}
				sigs = append(sigs, x)
				acc[accept{string(x.core), string(keys[i]), x.ht}] = true
				if r.Intn(10) == 0 {
					acc[accept{string(x.core), string(pick(r, keys...)), x.ht}] = true
				}
			}
		}
		if r.Intn(6) == 0 { // a verifier that accepts an empty signature body
			acc[accept{"", string(keys[0]), 1}] = true
		}
		t.Run(name, M{"mode": "table", "acc": accList(acc)}, func(s *S) {
			r := s.R
			enc := func(x sg) []byte { return append(append([]byte{}, x.core...), x.ht) }
			anySig := func() []byte {
				switch r.Intn(10) {
				case 0:
					return nil
				case 1:
					return []byte{1}
				case 2: // right signature under another hash type
					x := pick(r, sigs...)
					x.ht ^= pick(r, byte(1), 2, 0x80)
					return enc(x)
				case 3:
					x := pick(r, sigs...)
					return x.core
				}
				return enc(pick(r, sigs...))
			}
			for i := 0; i < 40; i++ {
				key := pick(r, keys...)
				p := cat(push(anySig()), push(key), []byte{pick(r, byte(172), 173)})
				doExec(s, stubEngine("table", acc), p, true)
				// multisig
				n := len(keys)
				ks := append([][]byte{}, keys...)
				if r.Intn(3) == 0 {
					n = r.Intn(n + 1)
					ks = ks[:n]
				}
				m := r.Intn(n + 1)
				if r.Intn(3) == 0 {
					m = n
				}
				idx := r.Perm(n)[:m]
				if r.Intn(4) > 0 {
					for a := range idx {
						for b := a + 1; b < len(idx); b++ {
							if idx[b] < idx[a] {
								idx[a], idx[b] = idx[b], idx[a]
							}
						}
					}
				}
				var ss [][]byte
				for _, j := range idx {
					var own []sg
					for _, x := range sigs {
						if acc[accept{string(x.core), string(ks[j]), x.ht}] {
							own = append(own, x)
						}
					}
					if len(own) == 0 || r.Intn(12) == 0 {
						ss = append(ss, anySig())
					} else {
						ss = append(ss, enc(pick(r, own...)))
					}
				}
				if m > 1 && r.Intn(8) == 0 { // the same signature twice
					ss[r.Intn(m)] = ss[r.Intn(m)]
				}
				below := pick(r, [][]byte{}, [][]byte{{81}}, [][]byte{{0}}, [][]byte{{82}, {83}})
				q := append([][]byte{}, below...)
				q = append(q, pick(r, []byte{0}, []byte{0}, []byte{0}, []byte{81}, push([]byte{9, 9}), nil))
				for _, x := range ss {
					q = append(q, push(x))
				}
				mm, nn := count(m), count(n)
				switch r.Intn(14) {
				case 0:
					mm = count(m + pick(r, -1, 1, 2))
				case 1:
					nn = count(n + pick(r, -1, 1, 2))
				case 2:
					mm = push(pick(r, numbers...))
				case 3:
					nn = push(pick(r, numbers...))
				}
				q = append(q, mm)
				for _, x := range ks {
					q = append(q, push(x))
				}
				q = append(q, nn, []byte{pick(r, byte(174), 174, 175)})
				doExec(s, stubEngine("table", acc), cat(q...), true)
			}
		})
	}
	for k := 0; k < 3; k++ {
		t.Run(fmt.Sprintf("nocallbacks/%d", k), noneInit, func(s *S) {
			for i := 0; i < 30; i++ {
				g := newGen(s.R)
				doExec(s, stubEngine(pick(s.R, "none", "nohash", "noverify"), nil), cat([]byte{81, 81}, g.multisig()), true)
				doExec(s, stubEngine(pick(s.R, "none", "nohash", "noverify"), nil), cat(push(stubSig([]byte{0xAA}, 1)), push([]byte{0xAA}), []byte{pick(s.R, byte(172), 173)}), true)
				doExec(s, stubEngine(pick(s.R, "none", "nohash", "noverify"), nil), cat([]byte{0}, push([]byte{0xAA}), []byte{pick(s.R, byte(172), 173)}), true)
			}
		})
	}
}
