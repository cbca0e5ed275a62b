package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
)

func init() { suites["C25"] = suiteC25 }

// what a worker must have for itself; everything else may be shared
const ownKinds = "x B K w M E"

func isOwn(k string) bool { return strings.Contains(ownKinds, k) }

// with randomness of their own
var chosen = map[string]bool{"pl.enc": true, "pl.mulp": true, "pl.addp": true, "pl.add": true, "mpc.ecdsa": true}

type ccall struct {
	f    string
	args []int
	p    int
}

// concRun performs a program on the shared cells (1..n) and the worker's own (n+1..).
func concRun(shared []cell, smarks []string, own []cell, prog []ccall, reps int) []M {
	var l []M
	for ; reps > 0; reps-- {
		for _, c := range prog {
			o := aops[c.f]
			ks := strings.Fields(o.in)
			key := []string{c.f, fmt.Sprint(c.p)}
			var x []interface{}
			var target *cell
			for k, i := range c.args {
				var a *cell
				m := ""
				if i <= len(shared) {
					a, m = &shared[i-1], smarks[i-1]
				} else {
					a = &own[i-1-len(shared)]
					m = mark(*a)
				}
				if a.kind != ks[k] && !(ks[k] == "b" && a.kind == "h") {
					panic("harness: kind of argument")
				}
				if k == 0 && isOwn(a.kind) {
					target = a
				}
				x = append(x, a.v)
				key = append(key, m)
			}
			got := o.f(x, c.p)
			ks = strings.Fields(o.out)
			out := []string{}
			for k, v := range got {
				m := mark(cell{ks[k], v, false})
				if c.f == "mpc.ecdsa" {
					m = fmt.Sprint(v == got[0])
				} else if chosen[c.f] {
					m = "any"
				}
				out = append(out, m)
			}
			if target != nil {
				out = append(out, mark(*target))
			}
			l = append(l, M{"key": strings.Join(key, " "), "ok": got != nil, "out": out})
		}
	}
	return l
}

func concWorld(A) World {
	var shared []cell
	marks := func() []string {
		l := []string{}
		for _, c := range shared {
			l = append(l, mark(c))
		}
		return l
	}
	return func(op string, a A) M {
		switch op {
		case "pool":
			for _, x := range a.objs("cells") {
				shared = append(shared, aliasCell(x))
			}
			return M{"cells": marks()}
		case "run":
			progs := [][]ccall{}
			for _, w := range a.objs("workers") {
				var p []ccall
				for _, c := range w.objs("prog") {
					p = append(p, ccall{c.str("f"), c.ints("args"), c.int("p")})
				}
				progs = append(progs, p)
			}
			own := func() [][]cell {
				var l [][]cell
				for _, w := range a.objs("workers") {
					var o []cell
					for _, x := range w.objs("own") {
						o = append(o, aliasCell(x))
					}
					l = append(l, o)
				}
				return l
			}
			sm := marks()
			n, reps := len(progs), a.int("reps")
			alone, conc := make([][]M, n), make([][]M, n)
			o := own()
			for i := range progs {
				alone[i] = concRun(shared, sm, o[i], progs[i], reps)
			}
			o = own()
			var mu sync.Mutex
			var bad interface{}
			together(n, func(i int) {
				defer func() {
					if p := recover(); p != nil {
						mu.Lock()
						bad = p
						mu.Unlock()
					}
				}()
				conc[i] = concRun(shared, sm, o[i], progs[i], reps)
			})
			if bad != nil {
				panic(bad)
			}
			return M{"alone": alone, "conc": conc, "cells": marks()}
		}
		panic("harness: op " + op)
	}
}

func suiteC25(t *Rec) {
	bip39.SetWordList(words.English)
	plOne <- nil
	rerun(t, concWorld)
	for i := 0; i < t.N(60, 700); i++ {
		t.Run(fmt.Sprintf("mix/%d", i), M{"x": 0}, func(s *S) {
			r := s.R
			w := concWorld(nil)
			var shared, own []M
			pool := aliasPool(r)
			if i%5 == 0 {
				for _, k := range []string{"P", "S", "c", "c"} {
					pool = append(pool, M{"k": k, "b": hx(rbytes(r, 1+r.Intn(9)))})
				}
			}
			for _, c := range pool {
				if isOwn(c["k"].(string)) {
					own = append(own, c)
				} else {
					shared = append(shared, c)
				}
			}
			if s.Call(w, "pool", M{"cells": shared}) == nil {
				return
			}
			for n := 0; n < 3; n++ {
				var ws []M
				same := r.Intn(3) == 0
				for k := 2 + r.Intn(7); k > 0; k-- {
					if same && len(ws) > 0 {
						ws = append(ws, ws[0])
						continue
					}
					ws = append(ws, M{"own": own, "prog": concProg(r, shared, own, 6)})
				}
				if s.Call(w, "run", M{"workers": ws, "reps": 1 + r.Intn(3)}) == nil {
					return
				}
			}
		})
	}
}

func concProg(r *rand.Rand, shared, own []M, n int) []M {
	l := []M{}
	for len(l) < n {
		f := pick(r, aopNames...)
		if (f == "mpc.ecdsa" || f == "mn.seed") && r.Intn(8) > 0 {
			continue
		}
		args := []int{}
		for _, k := range strings.Fields(aops[f].in) {
			var can []int
			for j, c := range append(append([]M{}, shared...), own...) {
				if c["k"] == k || (k == "b" && c["k"] == "h") {
					can = append(can, j+1)
				}
			}
			if can != nil {
				args = append(args, can[r.Intn(len(can))])
			}
		}
		if len(args) == len(strings.Fields(aops[f].in)) {
			l = append(l, M{"f": f, "args": args, "p": r.Intn(40)})
		}
	}
	return l
}
