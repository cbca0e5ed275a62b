// Command verifdrv drives the real code through its exported API and records
// what it did as sessions of events, one JSON object per line, for validation
// against the specifications in /verif/spec.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// M is a JSON object.
type M = map[string]interface{}

// Ev is one operation with its observed result.
type Ev struct {
	Op string      `json:"op"`
	A  interface{} `json:"a"`
	R  interface{} `json:"r"`
}

// S is a session: a sequence of operations on objects of its own.
type S struct {
	Name string      `json:"name"`
	Init interface{} `json:"init"`
	Ev   []Ev        `json:"ev"`
	R    *rand.Rand  `json:"-"`
	T    *Rec        `json:"-"`

	curOp string
	curA  interface{}
	start time.Time
}

// Rec is the recorder of one run.
type Rec struct {
	mu      sync.Mutex
	out     *bufio.Writer
	file    *os.File
	seed    int64
	tier    string
	only    string
	cases   string
	live    map[*S]bool
	pending string
	limit   time.Duration
	serial  bool // the code under test has state of the whole process
	n, ev   int
	kinds   map[string]int
}

// Thorough reports the tier.
func (t *Rec) Thorough() bool { return t.tier == "thorough" }

// N picks a count by tier.
func (t *Rec) N(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

func (t *Rec) rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", t.seed, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Run records one session; its random choices depend on the seed and its name only.
func (t *Rec) Run(name string, init M, f func(s *S)) {
	if t.only != "" && t.only != name {
		return
	}
	s := &S{Name: name, Init: init, Ev: []Ev{}, R: t.rng(name), T: t}
	t.mu.Lock()
	t.live[s] = true
	t.mu.Unlock()
	f(s)
	t.flush(s)
}

func (t *Rec) flush(s *S) {
	t.mu.Lock()
	defer t.mu.Unlock()
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	t.out.Write(b)
	t.out.WriteByte('\n')
	t.n++
	t.ev += len(s.Ev)
	delete(t.live, s)
}

// Par runs f(0..n-1) on every core; sessions are independent of each other.
func (t *Rec) Par(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

// Do runs one operation of the code under test and records it.  A panic is
// recorded as an event of its own, which no specification allows.
func (s *S) Do(op string, a M, f func() M) M {
	t := s.T
	t.mu.Lock()
	s.curOp, s.curA, s.start = op, a, time.Now()
	t.kinds[op]++
	t.mu.Unlock()
	if t.pending != "" {
		b, _ := json.Marshal(M{"session": s.Name, "op": op, "a": a})
		os.WriteFile(t.pending, b, 0644)
	}
	var r M
	func() {
		defer func() {
			if p := recover(); p != nil {
				r = nil
				st := string(debug.Stack())
				s.Ev = append(s.Ev, Ev{"panic", M{"op": op, "a": a}, M{"msg": fmt.Sprint(p), "at": frames(st)}})
			}
		}()
		r = f()
	}()
	t.mu.Lock()
	s.start = time.Time{}
	t.mu.Unlock()
	if r != nil {
		s.Ev = append(s.Ev, Ev{op, a, r})
	}
	return r
}

func frames(st string) string {
	var fs []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") && strings.Contains(l, ".go:") && !strings.Contains(l, "verifdrv") && !strings.Contains(l, "/src/runtime/") {
			fs = append(fs, l)
		}
		if len(fs) == 4 {
			break
		}
	}
	return strings.Join(fs, " ; ")
}

func (t *Rec) watchdog(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		t.mu.Lock()
		for c := range t.live {
			if c.start.IsZero() || time.Since(c.start) <= limit {
				continue
			}
			s := &S{Name: c.Name, Init: c.Init, Ev: append([]Ev{}, c.Ev...)}
			s.Ev = append(s.Ev, Ev{"hang", M{"op": c.curOp, "a": c.curA}, M{"msg": "no result within " + limit.String(), "at": ""}})
			b, _ := json.Marshal(s)
			t.out.Write(b)
			t.out.WriteByte('\n')
			t.n++
			t.ev += len(s.Ev)
			t.finish()
			os.Exit(0)
		}
		t.mu.Unlock()
	}
}

func (t *Rec) finish() {
	t.out.Flush()
	t.file.Close()
	ks := make([]string, 0)
	for k := range t.kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sum := M{"sessions": t.n, "events": t.ev, "ops": t.kinds}
	b, _ := json.Marshal(sum)
	fmt.Println("SUMMARY " + string(b))
}

// ---- suites ----
var suites = map[string]func(t *Rec){}
var replays = map[string]func(t *Rec){}

func main() {
	out := flag.String("out", "", "trace file")
	suite := flag.String("suite", "", "suite")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	only := flag.String("only", "", "session to run")
	cases := flag.String("cases", "", "file of cases generated by the model checker")
	pending := flag.String("pending", "", "file naming the operation in progress")
	limit := flag.Duration("limit", 60*time.Second, "time limit of one operation")
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	t := &Rec{out: bufio.NewWriterSize(f, 1<<20), file: f, seed: *seed, tier: *tier, only: *only, cases: *cases, pending: *pending, limit: *limit, kinds: map[string]int{}, live: map[*S]bool{}}
	fn := suites[*suite]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown suite", *suite)
		os.Exit(3)
	}
	go t.watchdog(*limit)
	fn(t)
	t.mu.Lock()
	t.finish()
}

// ---- helpers ----
func hx(b []byte) string { return hex.EncodeToString(b) }
func unhx(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func hxs(bs [][]byte) []string {
	r := make([]string, len(bs))
	for i := range bs {
		r[i] = hx(bs[i])
	}
	return r
}
func u64s(v uint64) string { return strconv.FormatUint(v, 10) }
func i64s(v int64) string  { return strconv.FormatInt(v, 10) }

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// spare returns a copy of b with n bytes of capacity behind it, all 0xA5.
func spare(b []byte, n int) []byte {
	full := make([]byte, len(b)+n)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	return full[:len(b)]
}

// intact reports whether a slice made by spare(b, n) still holds b and its padding.
func intact(s, b []byte, n int) bool {
	if len(s) != len(b) || cap(s) < len(b)+n {
		return false
	}
	full := s[:len(b)+n]
	for i := range full {
		if i < len(b) {
			if full[i] != b[i] {
				return false
			}
		} else if full[i] != 0xA5 {
			return false
		}
	}
	return true
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// lines reads a file of JSON lines.
func lines(path string, f func(b []byte)) {
	h, err := os.Open(path)
	if err != nil {
		return
	}
	defer h.Close()
	sc := bufio.NewScanner(h)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
}
