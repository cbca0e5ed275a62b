package main

import (
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

func init() { suites["C19"] = suiteC19 }

var msgTypes = []string{"version", "verack", "inv", "ping", "pong", "getdata", "getheaders", "headers", "tx", "reject"}

// emptyMsg: a message to decode into, as the exported API makes them.
func emptyMsg(cmd string) xprotocol.Message {
	switch cmd {
	case "version":
		return &xprotocol.MsgVersion{}
	case "verack":
		return &xprotocol.MsgVerAck{}
	case "inv":
		return &xprotocol.MsgInv{}
	case "getdata":
		return &xprotocol.MsgGetData{}
	case "getheaders":
		return &xprotocol.MsgGetHeaders{}
	case "headers":
		return &xprotocol.MsgHeaders{}
	case "ping":
		return &xprotocol.MsgPing{}
	case "pong":
		return &xprotocol.MsgPong{}
	case "tx":
		return &xprotocol.MsgTx{}
	case "reject":
		return &xprotocol.MsgReject{}
	}
	return xprotocol.NewMsgUnhandle(cmd)
}

func newMsg(cmd string, a A) xprotocol.Message {
	switch cmd {
	case "version":
		return xprotocol.NewMsgVersion(mainOr(a))
	case "verack":
		return xprotocol.NewMsgVerAck()
	case "inv":
		return xprotocol.NewMsgInv()
	case "getdata":
		return xprotocol.NewMsgGetData()
	case "getheaders":
		return xprotocol.NewMsgGetHeaders(mainOr(a))
	case "headers":
		return xprotocol.NewMsgHeaders()
	case "ping":
		return xprotocol.NewMsgPing(a.u64("nonce"))
	case "pong":
		return xprotocol.NewMsgPong(a.u64("nonce"))
	case "tx":
		return xprotocol.NewMsgTx(a.hex("data"))
	case "reject":
		return xprotocol.NewMsgReject(string(a.hex("rcmd")), xprotocol.RejectCode(a.int("code")), string(a.hex("reason")))
	}
	return xprotocol.NewMsgUnhandle(cmd)
}

func u32s(v uint32) string { return u64s(uint64(v)) }

func hdrM(h *xprotocol.BlockHeader) M {
	return M{"v": u32s(h.Version), "prev": hx(h.PrevBlock), "root": hx(h.MerkleRoot), "time": u32s(h.Timestamp), "bits": u32s(h.Bits), "nonce": u32s(h.Nonce)}
}

func hdrOf(a A) *xprotocol.BlockHeader {
	return &xprotocol.BlockHeader{Version: uint32(a.u64("v")), PrevBlock: a.hex("prev"), MerkleRoot: a.hex("root"), Timestamp: uint32(a.u64("time")), Bits: uint32(a.u64("bits")), Nonce: uint32(a.u64("nonce"))}
}

func invM(l []*xprotocol.InvVect) M {
	r := []M{}
	for _, i := range l {
		r = append(r, M{"t": u32s(uint32(i.Type)), "h": hx(i.Hash)})
	}
	return M{"items": r}
}

func invOf(a A) *xprotocol.InvVect {
	return xprotocol.NewInvVect(xprotocol.InvType(a.u64("t")), a.hex("h"))
}

// fields reports a message through its exported fields (getheaders has none:
// its encoding is taken apart).
func fields(m xprotocol.Message) M {
	switch v := m.(type) {
	case *xprotocol.MsgVersion:
		return M{"ver": u32s(v.Version), "serv": u64s(v.Services), "time": u64s(v.Timestamp), "servyou": u64s(v.ServicesYou), "addryou": hx(v.AddressYou), "portyou": v.PortYou,
			"servme": u64s(v.ServicesMe), "addrme": hx(v.AddressMe), "portme": v.PortMe, "nonce": u64s(v.Nonce), "ua": hx([]byte(v.UserAgent)), "last": u32s(v.LastBlock), "relay": v.Relay}
	case *xprotocol.MsgInv:
		return invM(v.Invs)
	case *xprotocol.MsgGetData:
		return invM(v.InvList)
	case *xprotocol.MsgHeaders:
		r := []M{}
		for _, h := range v.Headers {
			r = append(r, hdrM(h))
		}
		return M{"items": r}
	case *xprotocol.MsgPing:
		return M{"nonce": u64s(v.Nonce)}
	case *xprotocol.MsgPong:
		return M{"nonce": u64s(v.Nonce)}
	case *xprotocol.MsgReject:
		return M{"cmd": hx([]byte(v.Cmd)), "code": v.Code, "reason": hx([]byte(v.Reason)), "hash": hx(v.Hash)}
	case *xprotocol.MsgTx:
		return M{"data": hx(v.Data)}
	case *xprotocol.MsgVerAck:
		return M{"x": 0}
	}
	return M{"data": hx(m.Encode())}
}

func sameBytes(a, b []byte) bool { return string(a) == string(b) }

func msgWorld(A) World {
	var m xprotocol.Message
	var cmd string
	noLoc := false // getheaders without locators: its encoding shows the zero hash
	get := func() M {
		if g, ok := m.(*xprotocol.MsgGetHeaders); ok {
			f := getheadersFields(g)
			if noLoc {
				f["items"] = []string{}
			}
			return f
		}
		return fields(m)
	}
	enc := func() []byte {
		b := append([]byte{}, m.Encode()...)
		if !sameBytes(b, m.Encode()) {
			panic("encoding twice differs")
		}
		return b
	}
	count := func() int {
		if l, ok := get()["items"]; ok {
			switch v := l.(type) {
			case []M:
				return len(v)
			case []string:
				return len(v)
			}
		}
		return 0
	}
	return func(op string, a A) M {
		switch op {
		case "new":
			cmd = a.str("cmd")
			m = newMsg(cmd, a)
			noLoc = cmd == "getheaders"
			return M{"cmd": m.Command(), "f": get()}
		case "set":
			f := a.obj("f")
			switch v := m.(type) {
			case *xprotocol.MsgVersion:
				setVersion(v, f)
			case *xprotocol.MsgPing:
				v.Nonce = f.u64("nonce")
			case *xprotocol.MsgPong:
				v.Nonce = f.u64("nonce")
			case *xprotocol.MsgReject:
				v.Cmd, v.Code, v.Reason, v.Hash = string(f.hex("cmd")), byte(f.int("code")), string(f.hex("reason")), f.hex("hash")
			case *xprotocol.MsgTx:
				v.Data = f.hex("data")
			default:
				panic("harness: set")
			}
			return M{"x": 0}
		case "add":
			var err error
			switch v := m.(type) {
			case *xprotocol.MsgInv:
				var l []*xprotocol.InvVect
				for _, i := range a.objs("items") {
					l = append(l, invOf(i))
				}
				err = v.AddInvVect(l...)
			case *xprotocol.MsgGetData:
				var l []*xprotocol.InvVect
				for _, i := range a.objs("items") {
					l = append(l, invOf(i))
				}
				err = v.AddInvVect(l...)
			case *xprotocol.MsgHeaders:
				var l []*xprotocol.BlockHeader
				for _, i := range a.objs("items") {
					l = append(l, hdrOf(i))
				}
				err = v.AddBlockHeader(l...)
			case *xprotocol.MsgGetHeaders:
				for _, i := range a.hexes("items") {
					err = v.AddBlockLocatorHash(i)
					noLoc = false
				}
			}
			return M{"ok": err == nil}
		case "addn":
			n, once, added := a.int("n"), a.bool("once"), 0
			ok := func(k int, err error) {
				if err == nil {
					added += k
				}
			}
			inv := func(add func(...*xprotocol.InvVect) error) {
				if once {
					l := make([]*xprotocol.InvVect, n)
					for i := range l {
						l[i] = invOf(a.obj("item"))
					}
					ok(n, add(l...))
					return
				}
				for i := 0; i < n; i++ {
					ok(1, add(invOf(a.obj("item"))))
				}
			}
			switch v := m.(type) {
			case *xprotocol.MsgInv:
				inv(v.AddInvVect)
			case *xprotocol.MsgGetData:
				inv(v.AddInvVect)
			case *xprotocol.MsgHeaders:
				if once {
					l := make([]*xprotocol.BlockHeader, n)
					for i := range l {
						l[i] = hdrOf(a.obj("item"))
					}
					ok(n, v.AddBlockHeader(l...))
				} else {
					for i := 0; i < n; i++ {
						ok(1, v.AddBlockHeader(hdrOf(a.obj("item"))))
					}
				}
			case *xprotocol.MsgGetHeaders:
				for i := 0; i < n; i++ {
					ok(1, v.AddBlockLocatorHash(a.hex("item")))
					noLoc = false
				}
			}
			return M{"added": added}
		case "enc":
			b := enc()
			return M{"b": hx(b), "size": m.Size(), "cmd": m.Command()}
		case "digest":
			return M{"d": hx(sha(enc())), "size": m.Size()}
		case "dec":
			b := spare(a.hex("b"), 8)
			noLoc = false
			err := m.Decode(b)
			if !intact(b, a.hex("b"), 8) {
				panic("decoding changed its input")
			}
			if err != nil {
				return M{"ok": false}
			}
			if cmd == "getheaders" {
				noLoc = a.hex("b")[4] == 0
			}
			return M{"ok": true, "f": get()}
		case "round":
			to := m
			if !a.bool("same") {
				to = emptyMsg(cmd)
			}
			b := enc()
			if err := to.Decode(b); err != nil {
				return M{"ok": false}
			}
			m, noLoc = to, false
			r := M{"ok": true, "n": count(), "f": M{"x": 0}}
			if !a.bool("brief") {
				r["f"] = get()
			}
			return r
		case "get":
			return M{"f": get()}
		case "hash":
			h := hdrOf(a)
			return M{"h": hx(h.BlockHash()), "size": h.Size()}
		}
		panic("harness: op " + op)
	}
}

func rinv(r *rand.Rand) M { return M{"t": r32(r), "h": hx(rbytes(r, 32))} }
func rhdr(r *rand.Rand) M {
	return M{"v": r32(r), "prev": hx(rbytes(r, 32)), "root": hx(rbytes(r, 32)), "time": r32(r), "bits": r32(r), "nonce": r32(r)}
}
func rcmd(r *rand.Rand) string {
	return pick(r, "block", "getblocks", "addr", "x", "twelve.bytes", "notfound", "filterload", "mempool", "Tx", "versio", "versions")
}
func rtext(r *rand.Rand) string {
	return hx(rbytes(r, pick(r, 0, 1, 5, 16, 252, 253, 254, 300, r.Intn(60))))
}

func rversion(r *rand.Rand) M {
	return M{"ver": r32(r), "serv": u64s(ruint(r)), "time": u64s(ruint(r)), "servyou": u64s(ruint(r)), "addryou": hx(rbytes(r, 16)), "portyou": pick(r, 0, 1, 255, 256, 8333, 65535, r.Intn(65536)),
		"servme": u64s(ruint(r)), "addrme": hx(rbytes(r, 16)), "portme": pick(r, 0, 1, 255, 256, 8333, 65535, r.Intn(65536)), "nonce": u64s(ruint(r)), "ua": rtext(r), "last": r32(r), "relay": pick(r, 0, 1, 255, r.Intn(256))}
}

func rreject(r *rand.Rand) M {
	c := pick(r, "tx", "block", "version", "", "blocks", "inv")
	if r.Intn(5) == 0 {
		c = string(unhx(rtext(r)))
	}
	h := ""
	if c == "tx" || c == "block" {
		h = hx(rbytes(r, 32))
	}
	return M{"cmd": hx([]byte(c)), "code": r.Intn(256), "reason": rtext(r), "hash": h}
}

func newArgs(r *rand.Rand, cmd string) M {
	a := M{"cmd": cmd}
	switch cmd {
	case "version", "getheaders":
		a["net"] = pick(r, "main", "test")
	case "ping", "pong":
		a["nonce"] = u64s(ruint(r))
	case "tx":
		a["data"] = hx(rbytes(r, r.Intn(200)))
	case "reject":
		a["rcmd"], a["code"], a["reason"] = hx([]byte(pick(r, "tx", "version", "x"))), r.Intn(256), rtext(r)
	}
	return a
}

// fill gives a new message of the type random contents.
func fill(s *S, w World, cmd string) {
	r := s.R
	switch cmd {
	case "version":
		s.Call(w, "set", M{"f": rversion(r)})
	case "ping", "pong":
		s.Call(w, "set", M{"f": M{"nonce": u64s(ruint(r))}})
	case "reject":
		s.Call(w, "set", M{"f": rreject(r)})
	case "tx":
		s.Call(w, "set", M{"f": M{"data": hx(rbytes(r, r.Intn(300)))}})
	case "inv", "getdata", "headers", "getheaders":
		n := pick(r, 0, 1, 1, 2, 3, 252, 253, 254, r.Intn(10))
		if cmd == "headers" && n > 200 && r.Intn(4) > 0 {
			n = 3
		}
		for n > 0 {
			k := 1
			if r.Intn(2) == 0 {
				k = 1 + r.Intn(n)
			}
			if cmd == "getheaders" {
				k = 1
			}
			items := []interface{}{}
			for i := 0; i < k; i++ {
				switch cmd {
				case "headers":
					items = append(items, rhdr(r))
				case "getheaders":
					items = append(items, hx(rbytes(r, 32)))
				default:
					items = append(items, rinv(r))
				}
			}
			s.Call(w, "add", M{"items": items})
			n -= k
			if n > 20 && k == 1 && cmd != "getheaders" { // not one by one for long
				n = r.Intn(3)
			}
			if n > 20 && cmd == "getheaders" && len(s.Ev) > 300 {
				n = 0
			}
		}
	}
}

func suiteC19(t *Rec) {
	rerun(t, msgWorld)
	t.Par(t.N(240, 2400), func(n int) {
		t.Run(fmt.Sprintf("msg/%d", n), M{}, func(s *S) {
			r, w := s.R, msgWorld(nil)
			cmd := msgTypes[n%len(msgTypes)]
			if r.Intn(12) == 0 {
				cmd = rcmd(r)
			}
			s.Call(w, "new", newArgs(r, cmd))
			if cmd != "reject" {
				s.Call(w, "enc", M{})
				s.Call(w, "get", M{})
				s.Call(w, "round", M{"same": r.Intn(2) == 0, "brief": false})
			}
			fill(s, w, cmd)
			e := s.Call(w, "enc", M{})
			if e == nil {
				return
			}
			full := unhx(e["b"].(string))
			s.Call(w, "round", M{"same": r.Intn(2) == 0, "brief": false})
			s.Call(w, "enc", M{})
			// beginnings, extensions and mutations of it
			for k := 0; k < 12; k++ {
				b := append([]byte{}, full...)
				switch r.Intn(5) {
				case 0:
					b = b[:r.Intn(len(b)+1)]
				case 1:
					b = append(b, rbytes(r, 1+r.Intn(3))...)
				case 2:
					if len(b) > 0 {
						b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
					}
				case 3: // the count
					c := pick(r, []byte{253, 255, 255}, []byte{254, 80, 195, 0, 0}, []byte{254, 81, 195, 0, 0}, []byte{253, 208, 7}, []byte{253, 209, 7}, []byte{253, 245, 1}, []byte{253, 244, 1},
						[]byte{255, 255, 255, 255, 255, 255, 255, 255, 255}, []byte{255, 0, 0, 0, 0, 0, 0, 0, 128}, []byte{254, 255, 255, 255, 255}, []byte{255, 1, 0, 0, 0, 1, 0, 0, 0}, []byte{253, 1, 0}, []byte{0}, []byte{253, 2})
					if cmd == "getheaders" {
						b = cat(b[:4], c, b[5:])
					} else if len(b) > 0 {
						b = cat(c, b[1:])
					}
				case 4:
					if len(b) > 40 {
						b = b[:len(b)-1-r.Intn(40)]
					}
				}
				if d := s.Call(w, "dec", M{"b": hx(b)}); d != nil && d["ok"] == false {
					s.Call(w, "new", newArgs(r, cmd))
				} else if cmd != "reject" || d["f"].(M)["cmd"] != hx([]byte("tx")) {
					s.Call(w, "enc", M{})
				}
			}
			s.Call(w, "hash", rhdr(r))
		})
	})
	// long texts
	for _, n := range []int{65535, 65536, 65537} {
		t.Run(fmt.Sprintf("long/%d", n), M{}, func(s *S) {
			r, w := s.R, msgWorld(nil)
			for _, cmd := range []string{"version", "reject"} {
				a := newArgs(r, cmd)
				b := []byte{}
				v := cat([]byte{254, byte(n), byte(n >> 8), byte(n >> 16), 0}, rbytes(r, n))
				if n < 65536 {
					v = cat([]byte{253, byte(n), byte(n >> 8)}, v[5:])
				}
				if cmd == "version" {
					b = cat(rbytes(r, 80), v, rbytes(r, 5))
				} else {
					b = cat([]byte{5}, []byte("block"), []byte{1}, v, rbytes(r, 32))
				}
				s.Call(w, "new", a)
				s.Call(w, "dec", M{"b": hx(b)})
				s.Call(w, "enc", M{})
				s.Call(w, "dec", M{"b": hx(b[:len(b)-1])})
			}
		})
	}
	// the limits of each message
	for _, c := range []struct {
		cmd  string
		max  int
		once bool
	}{{"inv", 50000, false}, {"inv", 50000, true}, {"getdata", 50000, false}, {"getdata", 50000, true}, {"headers", 2000, false}, {"headers", 2000, true}, {"getheaders", 500, false}} {
		c := c
		t.Run(fmt.Sprintf("limit/%s/%v", c.cmd, c.once), M{}, func(s *S) {
			r, w := s.R, msgWorld(nil)
			var item interface{} = rinv(r)
			if c.cmd == "headers" {
				item = rhdr(r)
			} else if c.cmd == "getheaders" {
				item = hx(rbytes(r, 32))
			}
			s.Call(w, "new", newArgs(r, c.cmd))
			s.Call(w, "addn", M{"n": c.max + 1, "once": c.once, "item": item})
			s.Call(w, "digest", M{})
			s.Call(w, "new", newArgs(r, c.cmd))
			s.Call(w, "addn", M{"n": c.max - 1, "once": c.once, "item": item})
			s.Call(w, "addn", M{"n": 2, "once": c.once, "item": item})
			s.Call(w, "addn", M{"n": 1, "once": c.once, "item": item})
			s.Call(w, "addn", M{"n": 1, "once": c.once, "item": item})
			s.Call(w, "digest", M{})
			s.Call(w, "round", M{"same": c.once, "brief": true})
			s.Call(w, "digest", M{})
		})
	}
}

func mainOr(a A) *network.Network {
	if a.str("net") == "main" {
		return network.MainNet
	}
	return network.TestNet
}

func setVersion(v *xprotocol.MsgVersion, f A) {
	v.Version, v.Services, v.Timestamp, v.Nonce = uint32(f.u64("ver")), f.u64("serv"), f.u64("time"), f.u64("nonce")
	v.ServicesYou, v.AddressYou, v.PortYou = f.u64("servyou"), f.hex("addryou"), uint32(f.int("portyou"))
	v.ServicesMe, v.AddressMe, v.PortMe = f.u64("servme"), f.hex("addrme"), uint32(f.int("portme"))
	v.UserAgent, v.LastBlock, v.Relay = string(f.hex("ua")), uint32(f.u64("last")), byte(f.int("relay"))
}

// getheadersFields takes its encoding apart.
func getheadersFields(g *xprotocol.MsgGetHeaders) M {
	b := g.Encode()
	items := []string{}
	n, at := int(b[4]), 5
	if n == 253 {
		n, at = int(b[5])|int(b[6])<<8, 7
	}
	for i := 0; i < n; i++ {
		items = append(items, hx(b[at+32*i:at+32*i+32]))
	}
	return M{"ver": u32s(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24), "items": items, "stop": hx(b[at+32*n:])}
}
