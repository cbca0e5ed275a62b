package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"
)

// A is the argument object of an operation, normalised through JSON.
type A map[string]interface{}

func (a A) str(k string) string {
	v, ok := a[k].(string)
	if !ok {
		panic("harness: argument " + k + " is not text")
	}
	return v
}
func (a A) hex(k string) []byte { return unhx(a.str(k)) }
func (a A) int(k string) int {
	v, ok := a[k].(float64)
	if !ok {
		panic("harness: argument " + k + " is not a number")
	}
	return int(v)
}
func (a A) bool(k string) bool { v, _ := a[k].(bool); return v }
func (a A) has(k string) bool  { _, ok := a[k]; return ok }
func (a A) i64(k string) int64 {
	v, err := strconv.ParseInt(a.str(k), 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}
func (a A) u64(k string) uint64 {
	v, err := strconv.ParseUint(a.str(k), 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}
func (a A) list(k string) []interface{} { v, _ := a[k].([]interface{}); return v }
func (a A) obj(k string) A              { return A(a[k].(map[string]interface{})) }
func (a A) objs(k string) []A {
	var r []A
	for _, v := range a.list(k) {
		r = append(r, A(v.(map[string]interface{})))
	}
	return r
}
func (a A) strs(k string) []string {
	r := []string{}
	for _, v := range a.list(k) {
		r = append(r, v.(string))
	}
	return r
}
func (a A) hexes(k string) [][]byte {
	r := [][]byte{}
	for _, v := range a.strs(k) {
		r = append(r, unhx(v))
	}
	return r
}
func (a A) ints(k string) []int {
	r := []int{}
	for _, v := range a.list(k) {
		r = append(r, int(v.(float64)))
	}
	return r
}

// World interprets the operations of one session on real objects.
type World func(op string, a A) M

func norm(v interface{}) A {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var a A
	if err := json.Unmarshal(b, &a); err != nil {
		panic(err)
	}
	return a
}

// Call performs one operation in the session's world and records it.
func (s *S) Call(w World, op string, a M) M {
	n := norm(a)
	return s.Do(op, a, func() M { return w(op, n) })
}

// replay performs behaviours generated by the model checker, each a session
// {"init":..,"ev":[{"op","a","r"}]}, and compares every result.
func replay(t *Rec, mk func(init A) World) {
	if t.cases == "" {
		return
	}
	var all [][]byte
	lines(t.cases, func(b []byte) { all = append(all, append([]byte{}, b...)) })
	var mu sync.Mutex
	bad := 0
	fail := func(b []byte, i int, got interface{}) {
		mu.Lock()
		defer mu.Unlock()
		bad++
		if bad <= 20 {
			g, _ := json.Marshal(got)
			fmt.Printf("MISMATCH event=%d got=%s case=%s\n", i+1, g, b)
		}
	}
	one := func(b []byte) {
		var c struct {
			Init A
			Ev   []struct {
				Op string
				A  A
				R  A
			}
		}
		// TLC writes a record without fields as an empty list
		b = bytes.ReplaceAll(b, []byte(`"r":[]`), []byte(`"r":{}`))
		if err := json.Unmarshal(b, &c); err != nil || len(c.Ev) == 0 {
			panic("bad case " + string(b))
		}
		i := 0
		hung := time.AfterFunc(t.limit, func() {
			fail(b, i, "no result within "+t.limit.String())
			fmt.Printf("REPLAYED %d BAD %d\n", len(all), bad)
			t.mu.Lock()
			t.finish()
			os.Exit(0)
		})
		defer hung.Stop()
		defer func() {
			if p := recover(); p != nil {
				fail(b, i, fmt.Sprint("panic: ", p))
			}
		}()
		w := mk(c.Init)
		for i = range c.Ev {
			e := c.Ev[i]
			r := norm(w(e.Op, e.A))
			if !reflect.DeepEqual(r, e.R) {
				fail(b, i, r)
				return
			}
		}
	}
	if t.serial {
		for _, b := range all {
			one(b)
		}
	} else {
		t.Par(len(all), func(n int) { one(all[n]) })
	}
	fmt.Printf("REPLAYED %d BAD %d\n", len(all), bad)
}

func okm(err error, m M) M {
	if err != nil {
		return M{"ok": false}
	}
	m["ok"] = true
	return m
}

// rerun performs generated behaviours whose results depend on the code's own
// randomness: each is recorded as a session, to be validated like any other.
func rerun(t *Rec, mk func(init A) World) {
	if t.cases == "" {
		return
	}
	var all [][]byte
	lines(t.cases, func(b []byte) { all = append(all, append([]byte{}, b...)) })
	t.Par(len(all), func(n int) {
		var c struct {
			Init A
			Ev   []struct {
				Op string
				A  M
			}
		}
		if err := json.Unmarshal(all[n], &c); err != nil || len(c.Ev) == 0 {
			panic("bad case " + string(all[n]))
		}
		t.Run(fmt.Sprintf("generated/%d", n+1), M(c.Init), func(s *S) {
			w := mk(c.Init)
			for _, e := range c.Ev {
				if s.Call(w, e.Op, e.A) == nil {
					return
				}
			}
		})
	})
	fmt.Printf("REPLAYED %d BAD 0\n", len(all))
}
