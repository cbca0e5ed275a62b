package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/keyfuse/tokucore/xprotocol"
)

func init() { suites["C18"] = suiteC18 }

var errClosed = errors.New("use of closed connection")

// duct is one direction of a connection: bytes wait in it until they are read,
// in fragments of at most frag bytes.
type duct struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool // by the writer: what waits can still be read
	gone   bool // by the reader
}

func newDuct() *duct { d := &duct{}; d.cond = sync.NewCond(&d.mu); return d }

func (d *duct) put(b []byte) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.closed || d.gone {
		return errClosed
	}
	d.b = append(d.b, b...)
	d.cond.Broadcast()
	return nil
}
func (d *duct) get(b []byte, frag int) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.b) == 0 && !d.closed && !d.gone {
		d.cond.Wait()
	}
	if d.gone {
		return 0, errClosed
	}
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	n := len(d.b)
	if frag > 0 && n > frag {
		n = frag
	}
	n = copy(b, d.b[:n])
	d.b = d.b[n:]
	return n, nil
}
func (d *duct) shut(reader bool) {
	d.mu.Lock()
	if reader {
		d.gone = true
	} else {
		d.closed = true
	}
	d.cond.Broadcast()
	d.mu.Unlock()
}

// gate lets bytes through in pieces, one for each grant.
type gate struct {
	mu     sync.Mutex
	cond   *sync.Cond
	open   bool
	at     []chan struct{} // writers waiting, the latest last
	passed []byte
}

// memConn is a connection in memory.
type memConn struct {
	in, out *duct
	frag    int
	piece   int
	slow    time.Duration // how long every write takes
	g       *gate
	mu      sync.Mutex
	left    int // bytes until writing fails for good, if fails
	fails   bool
	shut    bool
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem" }

func (c *memConn) isShut() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.shut
}
func (c *memConn) Read(b []byte) (int, error) { return c.in.get(b, c.frag) }
func (c *memConn) Write(b []byte) (int, error) {
	if c.isShut() {
		return 0, errClosed
	}
	c.mu.Lock()
	if c.fails {
		n := len(b)
		if n > c.left {
			n = c.left
		}
		c.left -= n
		c.mu.Unlock()
		c.out.put(b[:n])
		if n < len(b) {
			return n, errors.New("network failure")
		}
		return n, nil
	}
	c.mu.Unlock()
	if c.g == nil {
		if err := c.out.put(b); err != nil {
			return 0, err
		}
		time.Sleep(c.slow)
		return len(b), nil
	}
	for n := 0; n < len(b); {
		k := len(b) - n
		if k > c.piece {
			k = c.piece
		}
		c.g.mu.Lock()
		if !c.g.open {
			ch := make(chan struct{})
			c.g.at = append(c.g.at, ch)
			c.g.cond.Broadcast()
			c.g.mu.Unlock()
			<-ch
			c.g.mu.Lock()
		}
		err := c.out.put(b[n : n+k])
		c.g.passed = append(c.g.passed, b[n:n+k]...)
		c.g.cond.Broadcast()
		c.g.mu.Unlock()
		if err != nil {
			return n, err
		}
		n += k
	}
	return len(b), nil
}
func (c *memConn) Close() error {
	c.mu.Lock()
	c.shut = true
	c.mu.Unlock()
	c.in.shut(true)
	c.out.shut(false)
	return nil
}
func (c *memConn) LocalAddr() net.Addr  { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr { return memAddr{} }
func (c *memConn) dl() error {
	if c.isShut() {
		return errClosed
	}
	return nil
}
func (c *memConn) SetDeadline(time.Time) error      { return c.dl() }
func (c *memConn) SetReadDeadline(time.Time) error  { return c.dl() }
func (c *memConn) SetWriteDeadline(time.Time) error { return c.dl() }

// end is a connection with what its receive loop reported.
type end struct {
	*xprotocol.Connection
	mu   sync.Mutex
	cond *sync.Cond
	got  []M
	held []func() M // the same messages, as they are now
	disc int
	late int // messages after the disconnect
	full bool
}

func newEnd(netName string, c net.Conn, digest bool) *end {
	e := &end{}
	e.cond = sync.NewCond(&e.mu)
	e.Connection = xprotocol.NewConnection(mainOr(A{"net": netName}), c, func(_ *xprotocol.Connection, m xprotocol.Message) {
		e.mu.Lock()
		defer e.mu.Unlock()
		if e.disc > 0 {
			e.late++
		}
		e.got = append(e.got, shown(m, digest))
		e.held = append(e.held, func() M { return shown(m, digest) })
		e.cond.Broadcast()
	}, func(_ *xprotocol.Connection) {
		e.mu.Lock()
		defer e.mu.Unlock()
		e.disc++
		e.cond.Broadcast()
	})
	return e
}

// shown is what a message received is recorded as.
func shown(m xprotocol.Message, digest bool) M {
	if digest {
		b := m.Encode()
		return M{"cmd": m.Command(), "d": hx(sha(b)), "n": len(b)}
	}
	return M{"cmd": m.Command(), "f": wireFields(m)}
}

// wireFields: as fields, getheaders included.
func wireFields(m xprotocol.Message) M {
	if g, ok := m.(*xprotocol.MsgGetHeaders); ok {
		return getheadersFields(g)
	}
	return fields(m)
}

// nudge wakes those who wait on a condition every now and then, until stopped.
func nudge(mu *sync.Mutex, cond *sync.Cond) func() {
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Millisecond):
				mu.Lock()
				cond.Broadcast()
				mu.Unlock()
			}
		}
	}()
	return func() { close(done) }
}

// await waits until cond holds (on the end's lock) or the time is up.
func (e *end) await(limit time.Duration, cond func() bool) bool {
	defer nudge(&e.mu, e.cond)()
	t0 := time.Now()
	e.mu.Lock()
	defer e.mu.Unlock()
	for !cond() {
		if time.Since(t0) >= limit {
			return false
		}
		e.cond.Wait()
	}
	return true
}
func (e *end) take() []M {
	e.mu.Lock()
	defer e.mu.Unlock()
	g := e.got
	if g == nil {
		g = []M{}
	}
	// a message stays as it was delivered, whatever came after it
	for i, now := range e.held {
		if m := now(); !reflect.DeepEqual(m, g[i]) {
			m["changed"] = g[i]
			g[i] = m
		}
	}
	e.got, e.held = nil, nil
	return g
}

const patience = 20 * time.Second

// msgFrom builds a message of fields f.
func msgFrom(cmd string, f A) xprotocol.Message {
	switch cmd {
	case "version":
		v := xprotocol.NewMsgVersion(mainOr(A{"net": "main"}))
		setVersion(v, f)
		return v
	case "verack":
		return xprotocol.NewMsgVerAck()
	case "inv":
		m := xprotocol.NewMsgInv()
		for _, i := range f.objs("items") {
			m.AddInvVect(invOf(i))
		}
		return m
	case "getdata":
		m := xprotocol.NewMsgGetData()
		for _, i := range f.objs("items") {
			m.AddInvVect(invOf(i))
		}
		return m
	case "headers":
		m := xprotocol.NewMsgHeaders()
		for _, i := range f.objs("items") {
			m.AddBlockHeader(hdrOf(i))
		}
		return m
	case "getheaders":
		m := xprotocol.NewMsgGetHeaders(mainOr(A{"net": "main"}))
		for _, i := range f.hexes("items") {
			m.AddBlockLocatorHash(i)
		}
		return m
	case "ping":
		return xprotocol.NewMsgPing(f.u64("nonce"))
	case "pong":
		return xprotocol.NewMsgPong(f.u64("nonce"))
	case "tx":
		return xprotocol.NewMsgTx(f.hex("data"))
	case "reject":
		m := xprotocol.NewMsgReject(string(f.hex("cmd")), xprotocol.RejectCode(f.int("code")), string(f.hex("reason")))
		m.Hash = f.hex("hash")
		return m
	}
	m := xprotocol.NewMsgUnhandle(cmd)
	if d := f.hex("data"); len(d) > 0 {
		if err := m.Decode(d); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return m
}

func streamWorld(init A) World {
	name := init.str("net")
	ab, ba := newDuct(), newDuct()
	g := &gate{}
	g.cond = sync.NewCond(&g.mu)
	ca := &memConn{in: ba, out: ab, g: g, piece: init.int("piece"), frag: 3}
	cb := &memConn{in: ab, out: ba, frag: init.int("frag")}
	var near, far *end
	var wg sync.WaitGroup
	queues := make([]chan xprotocol.Message, init.int("senders"))
	var cmu sync.Mutex
	started, returned, errs := 0, 0, 0
	up := func() {
		if near != nil {
			return
		}
		near, far = newEnd(name, ca, false), newEnd(name, cb, false)
		// reads are pending on both ends all the time
		go near.ReadLoop()
		go far.ReadLoop()
		for k := range queues {
			q := make(chan xprotocol.Message, 64)
			queues[k] = q
			wg.Add(1)
			go func() {
				defer wg.Done()
				for m := range q {
					err := near.Send(m)
					cmu.Lock()
					returned++
					if err != nil {
						errs++
					}
					cmu.Unlock()
					g.mu.Lock()
					g.cond.Broadcast()
					g.mu.Unlock()
				}
			}()
		}
	}
	idle := func() bool {
		cmu.Lock()
		defer cmu.Unlock()
		return started == returned
	}
	// wait for a writer at the gate; false if none comes although messages are being sent
	arrive := func(limit time.Duration, least int) bool {
		defer nudge(&g.mu, g.cond)()
		t0 := time.Now()
		for len(g.at) < least {
			if idle() {
				return true
			}
			if time.Since(t0) >= limit {
				return false
			}
			g.cond.Wait()
		}
		return true
	}
	return func(op string, a A) M {
		switch op {
		case "start":
			up()
			cmu.Lock()
			started++
			cmu.Unlock()
			queues[a.int("who")-1] <- msgFrom(a.obj("m").str("cmd"), a.obj("m").obj("f"))
			// time for a sender that nothing keeps from writing
			g.mu.Lock()
			arrive(2*time.Millisecond, len(g.at)+1)
			g.mu.Unlock()
			return M{"x": 0}
		case "grant":
			up()
			g.mu.Lock()
			defer g.mu.Unlock()
			if !arrive(patience, 1) {
				return M{"b": "", "stuck": true}
			}
			if len(g.at) == 0 {
				return M{"b": "", "stuck": false}
			}
			last := len(g.at) - 1
			ch := g.at[last]
			g.at = g.at[:last]
			n := len(g.passed)
			close(ch)
			for len(g.passed) == n {
				g.cond.Wait()
			}
			b := append([]byte{}, g.passed...)
			g.passed = nil
			return M{"b": hx(b), "stuck": false}
		case "finish":
			up()
			g.mu.Lock()
			g.open = true
			for _, ch := range g.at {
				close(ch)
			}
			g.at = nil
			g.mu.Unlock()
			stuck := !far.await(patience, func() bool {
				if !idle() {
					return false
				}
				cmu.Lock()
				defer cmu.Unlock()
				return len(far.got) >= started-errs || far.disc > 0
			})
			g.mu.Lock()
			b := append([]byte{}, g.passed...)
			g.passed, g.open = nil, false
			g.mu.Unlock()
			cmu.Lock()
			started, returned = 0, 0
			cmu.Unlock()
			return M{"b": hx(b), "got": far.take(), "errs": errs, "stuck": stuck}
		case "close":
			up()
			if a.bool("far") {
				far.Close()
			} else {
				near.Close()
			}
			near.await(patience, func() bool { return near.disc > 0 })
			far.await(patience, func() bool { return far.disc > 0 })
			// sending into it is an error, once the close is known
			bad := (map[bool]*end{true: far, false: near})[a.bool("far")].Send(xprotocol.NewMsgVerAck()) == nil
			for _, q := range queues {
				close(q)
			}
			wg.Wait()
			near.Close()
			far.Close()
			time.Sleep(time.Millisecond)
			near.mu.Lock()
			far.mu.Lock()
			defer near.mu.Unlock()
			defer far.mu.Unlock()
			return M{"near": near.disc, "far": far.disc, "more": len(far.got) + len(near.got) + far.late + near.late, "send": bad}
		case "bytes":
			if far == nil {
				far = newEnd(name, cb, false)
				go far.ReadLoop()
			}
			ab.put(a.hex("b"))
			return M{"x": 0}
		case "eof":
			if far == nil {
				far = newEnd(name, cb, false)
				go far.ReadLoop()
			}
			ab.shut(false)
			far.await(patience, func() bool { return far.disc > 0 })
			time.Sleep(time.Millisecond)
			got := far.take()
			far.mu.Lock()
			defer far.mu.Unlock()
			return M{"got": got, "disc": far.disc, "last": far.late == 0}
		case "big":
			c, d := newDuct(), newDuct()
			e := newEnd(name, &memConn{in: c, out: d}, true)
			p := make([]byte, a.int("n"))
			sum := sha(sha(p))[:4]
			if !a.bool("good") {
				sum[3] ^= 1
			}
			n := len(p)
			go func() {
				c.put(cat(mainOr(init).Magic, []byte("tx\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"), []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, sum))
				c.put(p)
				c.shut(false)
			}()
			e.ReadLoop()
			return M{"got": len(e.take()), "disc": e.disc}
		case "burst":
			c, d := newDuct(), newDuct()
			slow := time.Duration(0)
			if init.int("seed") >= burstLarge {
				slow = 2 * time.Millisecond // others wait long enough to go first whenever they can
			}
			na := newEnd(name, &memConn{in: d, out: c, frag: init.int("frag"), slow: slow}, true)
			fa := newEnd(name, &memConn{in: c, out: d, frag: init.int("frag"), slow: slow}, true)
			go na.ReadLoop()
			go fa.ReadLoop()
			var ws sync.WaitGroup
			var emu sync.Mutex
			bad, n := 0, 0
			for k, l := range a.list("from") {
				k, l := k, l.([]interface{})
				n += len(l)
				ws.Add(2)
				send := func(e *end) {
					defer ws.Done()
					for j := range l {
						if e.Send(burstMsg(init.int("seed"), k, j)) != nil {
							emu.Lock()
							bad++
							emu.Unlock()
						}
					}
				}
				go send(na)
				go send(fa) // the same the other way
			}
			ws.Wait()
			fa.await(patience, func() bool { return len(fa.got) >= n })
			na.await(patience, func() bool { return len(na.got) >= n })
			na.Close()
			fa.Close()
			if a.bool("back") {
				return M{"got": na.take(), "errs": bad}
			}
			return M{"got": fa.take(), "errs": bad}
		case "broken":
			c, d := newDuct(), newDuct()
			na := newEnd(name, &memConn{in: d, out: c, fails: true, left: a.int("n")}, false)
			fa := newEnd(name, &memConn{in: c, out: d, frag: init.int("frag")}, false)
			oks := []bool{}
			for _, m := range a.objs("ms") {
				oks = append(oks, na.Send(msgFrom(m.str("cmd"), m.obj("f"))) == nil)
			}
			c.shut(false)
			fa.ReadLoop()
			return M{"oks": oks, "got": fa.take(), "disc": fa.disc}
		case "bigsend":
			c, d := newDuct(), newDuct()
			na := newEnd(name, &memConn{in: d, out: c}, false)
			err := na.Send(xprotocol.NewMsgTx(make([]byte, a.int("n"))))
			return M{"ok": err == nil, "n": len(c.b)}
		case "toolong":
			c, d := newDuct(), newDuct()
			na := newEnd(name, &memConn{in: d, out: c}, false)
			err := na.Send(xprotocol.NewMsgUnhandle(a.str("cmd")))
			return M{"ok": err == nil, "wire": hx(c.b)}
		}
		panic("harness: op " + op)
	}
}

// sessions of many small messages and of large ones, by their seed
const burstMany, burstLarge = 1000000, 2000000

// burstMsg: the j-th message of sender k.
func burstMsg(seed, k, j int) xprotocol.Message {
	r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(k)*1009 + int64(j)))
	switch {
	case seed >= burstLarge:
		return xprotocol.NewMsgTx(rbytes(r, pick(r, r.Intn(100), 60000, 65512, 131072, 140000, 270000, 600000, 1<<20, 1200000)))
	case seed >= burstMany:
		return xprotocol.NewMsgPing(r.Uint64())
	}
	switch r.Intn(6) {
	case 0:
		return xprotocol.NewMsgPing(r.Uint64())
	case 1:
		m := xprotocol.NewMsgUnhandle("burst")
		m.Decode(rbytes(r, 20+r.Intn(30)))
		return m
	case 2:
		return xprotocol.NewMsgTx(rbytes(r, pick(r, 32744, 32743, 32745, 32768, 40000, 70000)))
	}
	return xprotocol.NewMsgTx(rbytes(r, 16+r.Intn(300)))
}

func rmsg(r *rand.Rand) M {
	cmd := pick(r, msgTypes...)
	if r.Intn(10) == 0 {
		cmd = rcmd(r)
	}
	f := M{}
	switch cmd {
	case "version":
		f = rversion(r)
	case "verack":
		f = M{"x": 0}
	case "inv", "getdata":
		f = M{"items": []M{rinv(r), rinv(r)}[:r.Intn(3)]}
	case "headers":
		f = M{"items": []M{rhdr(r), rhdr(r)}[:r.Intn(3)]}
	case "getheaders":
		f = M{"ver": "70015", "items": []string{hx(rbytes(r, 32)), hx(rbytes(r, 32))}[:r.Intn(3)], "stop": hx(make([]byte, 32))}
	case "ping", "pong":
		f = M{"nonce": u64s(ruint(r))}
	case "tx":
		f = M{"data": hx(rbytes(r, pick(r, 0, 1, 100, r.Intn(400))))}
	case "reject":
		f = rreject(r)
	default:
		f = M{"data": hx(rbytes(r, r.Intn(50)))}
	}
	return M{"cmd": cmd, "f": f}
}

func rframe(r *rand.Rand, name string) []byte {
	m := norm(rmsg(r))
	p := msgFrom(m.str("cmd"), m.obj("f")).Encode()
	return frame(mainOr(A{"net": name}).Magic, m.str("cmd"), p)
}

func frame(magic []byte, cmd string, p []byte) []byte {
	c := make([]byte, 12)
	copy(c, cmd)
	n := len(p)
	return cat(magic, c, []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, sha(sha(p))[:4], p)
}

func suiteC18(t *Rec) {
	rerun(t, streamWorld)
	nets := []string{"main", "test"}
	// concurrent senders, one piece of bytes at a time
	t.Par(t.N(120, 1500), func(n int) {
		r := t.rng(fmt.Sprint("stream-init", n))
		init := M{"net": nets[n%2], "senders": 1 + r.Intn(5), "piece": pick(r, 1000000, 100, 40, 24, 20, 7), "frag": pick(r, 0, 1, 3, 24, 100)}
		t.Run(fmt.Sprintf("gate/%d", n), init, func(s *S) {
			r, w := s.R, streamWorld(norm(init))
			for round := 0; round < 1+r.Intn(2); round++ {
				for k := 0; k < 4+r.Intn(12); k++ {
					if r.Intn(2) == 0 {
						s.Call(w, "start", M{"who": 1 + r.Intn(init["senders"].(int)), "m": rmsg(r)})
					} else {
						s.Call(w, "grant", M{})
					}
				}
				s.Call(w, "finish", M{})
			}
			s.Call(w, "close", M{"far": r.Intn(2) == 0})
		})
	})
	// bytes of all kinds at the receiving end
	t.Par(t.N(300, 4000), func(n int) {
		r := t.rng(fmt.Sprint("raw-init", n))
		init := M{"net": nets[n%2], "senders": 1, "piece": 1, "frag": pick(r, 0, 0, 1, 2, 5, 23, 24, 25, 1000)}
		t.Run(fmt.Sprintf("raw/%d", n), init, func(s *S) {
			r, w := s.R, streamWorld(norm(init))
			name := init["net"].(string)
			var all []byte
			for k := 0; k < 1+r.Intn(5); k++ {
				f := rframe(r, name)
				switch r.Intn(14) {
				case 0: // of another network
					f = rframe(r, nets[1-n%2])
				case 1:
					f[r.Intn(len(f))] ^= byte(1 << uint(r.Intn(8)))
				case 2:
					f = f[:r.Intn(len(f))]
				case 3: // length, either way
					f[16] += byte(pick(r, 1, 255, 16))
				case 4:
					f[19] = byte(pick(r, 255, 128, 2, 1))
				case 5: // a payload that is none, with a valid checksum
					p := f[24:]
					if len(p) > 0 {
						p = p[:r.Intn(len(p))]
					}
					f = frame(f[:4], string(f[4:16]), p)
				case 6:
					f = cat(f, rbytes(r, r.Intn(30)))
				}
				all = append(all, f...)
			}
			for len(all) > 0 {
				k := 1 + r.Intn(len(all))
				s.Call(w, "bytes", M{"b": hx(all[:k])})
				all = all[k:]
			}
			s.Call(w, "eof", M{})
		})
	})
	t.Par(t.N(120, 1200), func(n int) {
		r := t.rng(fmt.Sprint("broken-init", n))
		init := M{"net": nets[n%2], "senders": 1, "piece": 1, "frag": pick(r, 0, 7)}
		t.Run(fmt.Sprintf("broken/%d", n), init, func(s *S) {
			r, w := s.R, streamWorld(norm(init))
			ms := []M{}
			for k := 0; k < 1+r.Intn(4); k++ {
				ms = append(ms, rmsg(r))
			}
			s.Call(w, "broken", M{"ms": ms, "n": pick(r, 0, 1, 23, 24, 25, r.Intn(600))})
			s.Call(w, "toolong", M{"cmd": pick(r, "thirteen.byte", "a.very.much.longer.command")})
		})
	})
	t.Par(t.N(28, 120), func(n int) {
		r := t.rng(fmt.Sprint("burst-init", n))
		init := M{"net": nets[n%2], "senders": 1, "piece": 1, "frag": pick(r, 0, 0, 1000, 24), "seed": n + 1}
		senders, most := 2+r.Intn(6), 12
		switch {
		case n < 2:
			init["seed"], senders, most = burstMany+n, 3, -t.N(700, 3000)
		case n < 5:
			init["seed"], init["frag"], senders, most = burstLarge+n, pick(r, 0, 20000), 4, -4
		}
		t.Run(fmt.Sprintf("burst/%d", n), init, func(s *S) {
			r, w := s.R, streamWorld(norm(init))
			from := []interface{}{}
			for k := 0; k < senders; k++ {
				l := []M{}
				count := -most
				if most > 0 {
					count = 1 + r.Intn(most)
				}
				for j := 0; j < count; j++ {
					m := burstMsg(init["seed"].(int), k, j)
					b := m.Encode()
					l = append(l, M{"cmd": m.Command(), "d": hx(sha(b)), "n": len(b)})
				}
				from = append(from, l)
			}
			s.Call(w, "burst", M{"from": from, "back": false})
			s.Call(w, "burst", M{"from": from, "back": true})
		})
	})
	for n, c := range []struct {
		n    int
		good bool
	}{{32 << 20, true}, {32<<20 + 1, true}, {32 << 20, false}, {1 << 20, true}, {33 << 20, false}} {
		n, c := n, c
		init := M{"net": nets[n%2], "senders": 1, "piece": 1, "frag": 0}
		t.Run(fmt.Sprintf("big/%d", n), init, func(s *S) {
			w := streamWorld(norm(init))
			s.Call(w, "big", M{"n": c.n, "good": c.good})
			s.Call(w, "bigsend", M{"n": c.n})
		})
	}
}
