package main

import (
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/xcrypto"
)

func init() { suites["C17"] = suiteC17 }

func showPath(p []xcrypto.Node) []M {
	r := []M{}
	for _, n := range p {
		r = append(r, M{"h": hx(n.Hash), "p": hx(n.Parent), "pos": n.Position})
	}
	return r
}

func merkleWorld(A) World {
	m := xcrypto.NewMerkle(nil)
	other := xcrypto.NewMerkle([][]byte{sha([]byte("a")), sha([]byte("b")), sha([]byte("c"))})
	return func(op string, a A) M {
		switch op {
		case "new":
			in := a.hexes("leaves")
			ls := make([][]byte, len(in), len(in)+4)
			for i := range in {
				ls[i] = spare(in[i], 40)
			}
			full := ls[:cap(ls)]
			m = xcrypto.NewMerkle(ls)
			same := len(ls) == len(in)
			for i := range in {
				same = same && intact(ls[i], in[i], 40)
			}
			for i := len(in); i < len(full); i++ {
				same = same && full[i] == nil
			}
			root := hx(m.Root())
			for i := range ls { // the list belongs to the caller
				ls[i] = nil
			}
			return M{"root": root, "same": same}
		case "root":
			return M{"root": hx(m.Root())}
		case "proofs":
			l := spare(a.hex("leaf"), 40)
			p := showPath(m.Proofs(l))
			return M{"path": p, "same": intact(l, a.hex("leaf"), 40)}
		case "verify":
			l, r := spare(a.hex("leaf"), 40), spare(a.hex("root"), 40)
			var path []xcrypto.Node
			in := a.objs("path")
			for _, n := range in {
				var h []byte
				if n.str("h") != "nil" {
					h = spare(n.hex("h"), 40)
				}
				path = append(path, xcrypto.Node{Hash: h, Parent: spare(n.hex("p"), 40), Position: n.str("pos")})
			}
			ok := m.Verify(l, r, path)
			same := intact(l, a.hex("leaf"), 40) && intact(r, a.hex("root"), 40)
			for i, n := range in {
				same = same && (path[i].Hash == nil || intact(path[i].Hash, n.hex("h"), 40)) && intact(path[i].Parent, n.hex("p"), 40) && path[i].Position == n.str("pos")
			}
			// a proof needs no tree: any one gives the same answer, every time
			if ok != other.Verify(l, r, path) || ok != m.Verify(l, r, path) {
				panic("verdicts differ between trees or calls")
			}
			return M{"ok": ok, "same": same}
		}
		panic("harness: unknown operation " + op)
	}
}

func suiteC17(t *Rec) {
	replay(t, merkleWorld)
	leaves := func(r *rand.Rand, n int) []string {
		var ls []string
		for i := 0; i < n; i++ {
			switch {
			case i > 0 && r.Intn(10) == 0:
				ls = append(ls, ls[r.Intn(i)])
			case r.Intn(10) == 0:
				ls = append(ls, hx(zlead(r, 32)))
			case r.Intn(25) == 0:
				ls = append(ls, hx(rbytes(r, 1+r.Intn(31))))
			default:
				ls = append(ls, hx(rbytes(r, 32)))
			}
		}
		if ls == nil {
			ls = []string{}
		}
		return ls
	}
	// every size once
	t.Run("sizes", M{}, func(s *S) {
		w := merkleWorld(nil)
		for n := 0; n <= t.N(70, 300); n++ {
			ls := leaves(s.R, n)
			root := s.Call(w, "new", M{"leaves": ls})["root"]
			s.Call(w, "proofs", M{"leaf": hx(rbytes(s.R, 32))})
			for _, i := range []int{0, n - 1, n / 2, s.R.Intn(n + 1)} {
				if i >= 0 && i < n {
					p := s.Call(w, "proofs", M{"leaf": ls[i]})["path"]
					s.Call(w, "verify", M{"leaf": ls[i], "root": root, "path": p})
				}
			}
		}
	})
	// large trees
	t.Run("large", M{}, func(s *S) {
		w := merkleWorld(nil)
		for _, n := range []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 700, 1024, 1025, 2047, 2048, 2049, t.N(2500, 4097)} {
			ls := leaves(s.R, n)
			root := s.Call(w, "new", M{"leaves": ls})["root"]
			for _, i := range []int{n - 1, s.R.Intn(n)} {
				p := s.Call(w, "proofs", M{"leaf": ls[i]})["path"]
				s.Call(w, "verify", M{"leaf": ls[i], "root": root, "path": p})
			}
		}
	})
	// paths of any length
	t.Run("deep", M{}, func(s *S) {
		r, w := s.R, merkleWorld(nil)
		s.Call(w, "new", M{"leaves": leaves(r, 3)})
		for n := 0; n <= t.N(70, 300); n++ {
			q := []M{}
			for i := 0; i < n; i++ {
				q = append(q, M{"h": hx(rbytes(r, 32)), "p": "", "pos": pick(r, "left", "right")})
			}
			leaf := hx(rbytes(r, 32))
			root := leaf
			if q = redo(leaf, q); n > 0 {
				root = q[n-1]["p"].(string)
			}
			s.Call(w, "verify", M{"leaf": leaf, "root": root, "path": q})
			if n > 0 {
				s.Call(w, "verify", M{"leaf": leaf, "root": root, "path": q[:n-1]})
				x := M{"h": q[n-1]["h"], "p": q[n-1]["p"], "pos": q[n-1]["pos"]}
				x["h"] = hx(mangle(r, unhx(x["h"].(string))))
				s.Call(w, "verify", M{"leaf": leaf, "root": root, "path": append(append([]M{}, q[:n-1]...), x)})
			}
		}
	})
	for k := 0; k < t.N(60, 1000); k++ {
		t.Run(fmt.Sprintf("merkle/%d", k), M{}, func(s *S) {
			r, w := s.R, merkleWorld(nil)
			n := pick(r, 1+r.Intn(12), 1+r.Intn(40), pick(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100))
			ls := leaves(r, n)
			root := s.Call(w, "new", M{"leaves": ls})["root"].(string)
			for j := 0; j < 12; j++ {
				leaf := ls[r.Intn(n)]
				p := s.Call(w, "proofs", M{"leaf": leaf})["path"].([]M)
				s.Call(w, "verify", M{"leaf": leaf, "root": root, "path": p})
				if r.Intn(3) == 0 {
					s.Call(w, "root", M{})
				}
				for i := 0; i < 6; i++ {
					q := []M{}
					for _, x := range p {
						q = append(q, M{"h": x["h"], "p": x["p"], "pos": x["pos"]})
					}
					l, ro := leaf, root
					mut := func(h string) string {
						if r.Intn(6) == 0 {
							return hx(rbytes(r, 32))
						}
						if h == "nil" {
							return h
						}
						if b := mangle(r, unhx(h)); len(b) > 0 {
							return hx(b)
						}
						return "00"
					}
					at := r.Intn(len(q) + 1)
					switch c := r.Intn(9); {
					case c == 0:
						l = mut(l)
					case c == 1:
						ro = mut(ro)
					case c == 2:
						l = ls[r.Intn(n)]
					case at >= len(q):
						q = append(q, M{"h": mut(leaf), "p": root, "pos": pick(r, "left", "right")})
					case c == 3:
						q[at]["h"] = mut(q[at]["h"].(string))
						if r.Intn(3) == 0 && q[at]["pos"] == "right" {
							q[at]["h"] = "nil"
						}
					case c == 4:
						q[at]["p"] = mut(q[at]["p"].(string))
					case c == 5:
						q[at]["pos"] = pick(r, "left", "right", "", "Left", "x")
						if q[at]["h"] == "nil" {
							q[at]["pos"] = "right"
						}
					case c == 6:
						q = append(q[:at], q[at+1:]...)
					case c == 7:
						q[at], q[len(q)-1] = q[len(q)-1], q[at]
					case c == 8: // all parents consistent after the change
						q[at]["h"] = mut(q[at]["h"].(string))
						q = redo(l, q)
					}
					if len(q) > 0 && r.Intn(8) == 0 { // paired with itself
						if k := r.Intn(len(q)); q[k]["pos"] == "right" {
							q[k]["h"] = "nil"
						}
					}
					if r.Intn(10) == 0 {
						q = redo(l, q)
						if r.Intn(2) == 0 && len(q) > 0 {
							ro = q[len(q)-1]["p"].(string)
						}
					}
					s.Call(w, "verify", M{"leaf": l, "root": ro, "path": q})
				}
			}
		})
	}
}

func redo(leaf string, q []M) []M {
	pad := func(b []byte) []byte { return append(append([]byte{}, b...), make([]byte, 64)...)[:32] }
	h := unhx(leaf)
	for _, x := range q {
		o := h
		if x["h"] != "nil" {
			o = unhx(x["h"].(string))
		}
		if x["pos"] == "left" {
			h = sha(sha(cat(pad(o), pad(h))))
		} else {
			h = sha(sha(cat(pad(h), pad(o))))
		}
		x["p"] = hx(h)
	}
	return q
}
