package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
)

func init() { suites["C11"] = suiteC11 }

var mnLists = []string{"english", "chinese", "japanese", "rev-english"}

func mnList(l string) []string {
	switch l {
	case "english":
		return words.English
	case "chinese":
		return words.Chinese
	case "japanese":
		return words.Japanese
	}
	r := make([]string, 2048)
	for i, w := range words.English {
		r[2047-i] = w
	}
	return r
}

// together runs f(0..n-1) at the same time.
func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

// The list in use is global: sessions run one after the other.
func mnWorld(init A) World {
	bip39.SetWordList(mnList(init.str("list")))
	return func(op string, a A) M {
		switch op {
		case "new":
			x := spare(a.hex("ent"), 40)
			t, err := bip39.NewMnemonic(x)
			same := intact(x, a.hex("ent"), 40)
			if err != nil {
				return M{"ok": false, "same": same}
			}
			return M{"ok": true, "text": hx([]byte(t)), "same": same}
		case "ent":
			b, err := bip39.EntropyFromMnemonic(string(a.hex("text")))
			return okm(err, M{"ent": hx(b)})
		case "bytes":
			var b []byte
			var err error
			if a.bool("raw") {
				b, err = bip39.MnemonicToByteArray(string(a.hex("text")), true)
			} else {
				b, err = bip39.MnemonicToByteArray(string(a.hex("text")))
				if c, err2 := bip39.MnemonicToByteArray(string(a.hex("text")), false); (err == nil) != (err2 == nil) || hx(b) != hx(c) {
					return M{"ok": false, "and": "raw=false differs"}
				}
			}
			return okm(err, M{"b": hx(b)})
		case "valid":
			return M{"ok": bip39.IsMnemonicValid(string(a.hex("text")))}
		case "seedchk":
			b, err := bip39.NewSeedWithErrorChecking(string(a.hex("text")), string(a.hex("pass")))
			return okm(err, M{"seed": hx(b)})
		case "seed":
			return M{"seed": hx(bip39.NewSeed(string(a.hex("text")), string(a.hex("pass"))))}
		case "list":
			bip39.SetWordList(mnList(a.str("list")))
			return M{"ok": true}
		case "word":
			i, ok := bip39.GetWordIndex(string(a.hex("word")))
			if !ok {
				return M{"ok": false}
			}
			return M{"ok": true, "i": i}
		case "fresh":
			n := a.int("n")
			es, errs := make([]string, n), make([]error, n)
			together(n, func(i int) {
				b, err := bip39.NewEntropy(a.int("bits"))
				es[i], errs[i] = hx(b), err
			})
			for _, err := range errs {
				if err != nil {
					return M{"ok": false, "ents": []string{}}
				}
			}
			return M{"ok": true, "ents": es}
		case "wallets":
			ls := a.strs("lists")
			all := make([]M, len(ls))
			together(len(ls), func(i int) {
				k := map[string]bip39.Wordlists{"english": bip39.ENGLISH, "chinese": bip39.CHINESE, "japanese": bip39.JAPANESE}[ls[i]]
				w, err := bip39.NewBIP39(k)
				if err != nil {
					all[i] = M{"list": ls[i], "text": "", "seed": ""}
					return
				}
				all[i] = M{"list": ls[i], "text": hx([]byte(w.ToString())), "seed": hx(w.Seed())}
			})
			now := "none of them"
			for _, l := range ls {
				if x := bip39.GetWordList(); len(x) == 2048 && x[0] == mnList(l)[0] && x[2047] == mnList(l)[2047] {
					now = l
				}
			}
			return M{"all": all, "list": now}
		}
		panic("harness: unknown operation " + op)
	}
}

func suiteC11(t *Rec) {
	t.serial = true
	replay(t, mnWorld)
	for n := 0; n < t.N(150, 2500); n++ {
		l := mnLists[n%4]
		t.Run(fmt.Sprintf("bip39/%d", n), M{"list": l}, func(s *S) { mnSession(s, l) })
	}
	// one mnemonic of each size with many last words: exactly the right ones are accepted
	for _, n := range []int{16, 20, 24, 28, 32} {
		for v := 0; v < t.N(2, 4); v++ {
			l := mnLists[(n/4+v)%3]
			t.Run(fmt.Sprintf("lasts/%d/%d", n, v), M{"list": l}, func(s *S) {
				r, list, w := s.R, mnList(l), mnWorld(A{"list": l})
				x := s.Call(w, "new", M{"ent": hx(rbytes(r, n))})
				ws := strings.Fields(string(unhx(x["text"].(string))))
				last := 0
				for i := range list {
					if list[i] == ws[len(ws)-1] {
						last = i
					}
				}
				set := r.Perm(2048)[:t.N(40, 2048)]
				for b := 0; b < 11; b++ {
					set = append(set, last^(1<<uint(b)))
				}
				for b := 0; b < 16; b++ {
					set = append(set, last&^15|b)
				}
				for _, i := range set {
					ws[len(ws)-1] = list[i]
					s.Call(w, pick(r, "ent", "ent", "bytes"), M{"text": hx([]byte(strings.Join(ws, " "))), "raw": r.Intn(2) == 0})
				}
			})
		}
	}
	bip39.SetWordList(words.English)
}

func mnPass(r *rand.Rand) []byte {
	return pick(r, []byte{}, []byte("TREZOR"), rbytes(r, r.Intn(20)), []byte("メートルガバヴァぱばぐゞちぢ十人十色"), rbytes(r, 130), rbytes(r, 130+r.Intn(900)), []byte{0}, []byte(" "))
}

func mnSession(s *S, l string) {
	r := s.R
	w := mnWorld(A{"list": l})
	texts := []string{}
	seeds := 0
	for i := 0; i < 14; i++ {
		list := mnList(l)
		text := ""
		if len(texts) > 0 {
			text = texts[r.Intn(len(texts))]
			switch r.Intn(8) {
			case 0, 1: // another word somewhere
				ws := strings.Fields(text)
				ws[r.Intn(len(ws))] = pick(r, list[r.Intn(2048)], list[r.Intn(2048)], words.Japanese[r.Intn(2048)], "abandonn", "")
				text = strings.Join(ws, " ")
			case 2: // a random last word: may well be right
				ws := strings.Fields(text)
				ws[len(ws)-1] = list[r.Intn(2048)]
				text = strings.Join(ws, pick(r, " ", " ", "  ", "\u3000", "\t"))
			case 3:
				ws := strings.Fields(text)
				i, j := r.Intn(len(ws)), r.Intn(len(ws))
				ws[i], ws[j] = ws[j], ws[i]
				text = strings.Join(ws, " ")
			case 4:
				ws := strings.Fields(text)
				k := r.Intn(len(ws) + 1)
				ws = pick(r, ws[:k], ws[k:], append(ws, ws[:k]...))
				text = strings.Join(ws, " ")
			}
		}
		var x M
		switch op := pick(r, "new", "new", "ent", "ent", "bytes", "bytes", "valid", "seedchk", "seed", "list", "word", "fresh", "wallets"); op {
		case "new":
			e := rbytes(r, pick(r, 16, 20, 24, 28, 32))
			switch r.Intn(6) {
			case 0:
				e = rbytes(r, r.Intn(70))
			case 1:
				for j := 0; j < r.Intn(len(e)); j++ {
					e[j] = 0
				}
			case 2:
				for j := 0; j < r.Intn(len(e)); j++ {
					e[len(e)-1-j] = 0
				}
			}
			x = s.Call(w, op, M{"ent": hx(e)})
			if x["ok"] == true {
				texts = append(texts, string(unhx(x["text"].(string))))
			}
		case "ent", "valid":
			x = s.Call(w, op, M{"text": hx([]byte(text))})
		case "bytes":
			x = s.Call(w, op, M{"text": hx([]byte(text)), "raw": r.Intn(2) == 0})
		case "seedchk", "seed":
			if seeds++; seeds > 2 {
				continue
			}
			x = s.Call(w, op, M{"text": hx([]byte(text)), "pass": hx(mnPass(r))})
		case "list":
			if r.Intn(2) == 0 {
				continue
			}
			l = pick(r, mnLists...)
			x = s.Call(w, op, M{"list": l})
		case "word":
			x = s.Call(w, op, M{"word": hx([]byte(pick(r, list[r.Intn(2048)], words.English[r.Intn(2048)], words.Japanese[r.Intn(2048)], "", "zooo")))})
		case "fresh":
			x = s.Call(w, op, M{"bits": pick(r, 128, 160, 192, 224, 256, 256, 128, 96, 288, 0, 129, 136, -128, r.Intn(400)), "n": 1 + r.Intn(12)})
		case "wallets":
			if r.Intn(4) > 0 {
				continue
			}
			ls := []string{}
			for j := 0; j < 1+r.Intn(6); j++ {
				ls = append(ls, mnLists[r.Intn(3)])
			}
			x = s.Call(w, op, M{"lists": ls})
			if x != nil {
				l = x["list"].(string)
				if l == "none of them" {
					return
				}
			}
		}
		if x == nil {
			return
		}
	}
}
