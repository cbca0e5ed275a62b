package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"unicode/utf16"

	"github.com/keyfuse/tokucore/xrpc"
)

func init() { suites["C23"] = suiteC23 }

// jsonText writes the JSON text of a value, in one of its spellings.
func jsonText(r *rand.Rand, v A) string {
	ws := func() string { return pick(r, "", "", "", " ", "\n", "\t ") }
	switch v.str("k") {
	case "null":
		return "null"
	case "bool":
		return "true"
	case "int", "flt":
		return v.str("s")
	case "str":
		return jsonStr(r, string(v.hex("s")))
	case "list":
		l := []string{}
		for _, e := range v.objs("e") {
			l = append(l, ws()+jsonText(r, e)+ws())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "obj":
		l := []string{}
		for _, f := range v.objs("f") {
			l = append(l, ws()+jsonStr(r, f.str("n"))+ws()+":"+ws()+jsonText(r, f.obj("v"))+ws())
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	panic("harness: json kind")
}
func jsonStr(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c < 32 || c == '"' || c == '\\' || r.Intn(20) == 0:
			if c > 0xffff {
				x, y := utf16.EncodeRune(c)
				fmt.Fprintf(&b, "\\u%04x\\u%04x", x, y)
			} else {
				fmt.Fprintf(&b, "\\u%04x", c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type rpcSeen struct {
	req   M
	reply A
}

// rpcServer answers requests as told by the replies registered for them.
type rpcServer struct {
	*httptest.Server
	mu   sync.Mutex
	want map[string]*rpcSeen // by method and parameters
	rng  *rand.Rand
	stop chan struct{}
}

func rpcKey(m, arg string) string { return m + "/" + arg }

func newRPCServer() *rpcServer {
	s := &rpcServer{want: map[string]*rpcSeen{}, rng: rand.New(rand.NewSource(1)), stop: make(chan struct{})}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		body, _ := ioutil.ReadAll(q.Body)
		var in struct {
			Method string
			Params []json.RawMessage
			ID     json.RawMessage
		}
		err := json.Unmarshal(body, &in)
		params := []M{}
		for _, p := range in.Params {
			var t string
			if json.Unmarshal(p, &t) == nil {
				params = append(params, M{"k": "str", "s": hx([]byte(t))})
			} else {
				params = append(params, M{"k": "int", "s": string(p)})
			}
		}
		arg := ""
		if len(params) > 0 {
			arg = params[0]["s"].(string)
		}
		user, pass, _ := q.BasicAuth()
		s.mu.Lock()
		seen := s.want[rpcKey(in.Method, arg)]
		if seen == nil { // not a request that was to be made
			s.mu.Unlock()
			http.Error(w, "unexpected request", 404)
			return
		}
		seen.req = M{"m": in.Method, "params": params, "user": hx([]byte(user)), "pass": hx([]byte(pass)), "post": q.Method == "POST" && err == nil}
		p := seen.reply
		f := []string{}
		id := strings.TrimSpace(string(in.ID))
		if id == "" {
			id = "0"
		}
		switch p.str("id") {
		case "same":
			f = append(f, `"id":`+id)
		case "other":
			n, _ := strconv.Atoi(id)
			f = append(f, fmt.Sprintf(`"id":%d`, n+1+s.rng.Intn(3)))
		case "null":
			f = append(f, `"id":null`)
		}
		switch p.str("err") {
		case "null":
			f = append(f, `"error":null`)
		case "obj":
			f = append(f, `"error":{"code":-5,"message":"Block not found"}`)
		case "empty":
			f = append(f, `"error":{}`)
		case "bad":
			f = append(f, `"error":"oops"`)
		}
		if p.obj("res").str("k") != "none" {
			f = append(f, `"result":`+jsonText(s.rng, p.obj("res")))
		}
		s.rng.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		text := "{" + strings.Join(f, ",") + "}"
		cut := 1 + s.rng.Intn(len(text)-1)
		s.mu.Unlock()
		switch p.str("body") {
		case "cut":
			text = text[:cut]
		case "tail":
			text += "}"
		case "list":
			text = "[" + text + "]"
		case "null":
			text = "null"
		case "empty":
			text = ""
		case "text":
			text = "<html>" + text
		case "short":
			w.Header().Set("Content-Length", strconv.Itoa(len(text)+10))
		case "drop":
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
			return
		case "hang":
			select {
			case <-s.stop:
			case <-q.Context().Done():
			}
			return
		}
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(p.int("status"))
		w.Write([]byte(text))
	}))
	return s
}

func flt(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }
func hs(s string) string   { return hx([]byte(s)) }
func itoa(n interface{}) string {
	return fmt.Sprintf("%d", n)
}

func rpcHeader(h *xrpc.BlockHeaderResult) M {
	return M{"hash": hs(h.Hash), "confirmations": itoa(h.Confirmations), "height": itoa(h.Height), "version": itoa(h.Version), "versionHex": hs(h.VersionHex), "merkleroot": hs(h.MerkleRoot),
		"time": itoa(h.Time), "mediantime": itoa(h.MedianTime), "nonce": itoa(h.Nonce), "bits": hs(h.Bits), "difficulty": flt(h.Difficulty), "chainwork": hs(h.ChainWork),
		"previousblockhash": hx([]byte(h.PreviousBlockHash)), "nextblockhash": hx([]byte(h.NextBlockHash))}
}

func rpcBlock(b *xrpc.BlockResult) M {
	txs := []M{}
	for _, t := range b.Tx {
		vin, vout := []M{}, []M{}
		for _, i := range t.Vin {
			vin = append(vin, M{"coinbase": hs(i.Coinbase), "txid": hs(i.Txid), "vout": itoa(i.Vout), "scriptSig": M{"asm": hs(i.ScriptSig.Asm), "hex": hs(i.ScriptSig.Hex)}, "sequence": itoa(i.Sequence)})
		}
		for _, o := range t.Vout {
			addrs := []string{}
			for _, a := range o.ScriptPubKey.Addresses {
				addrs = append(addrs, hs(a))
			}
			p := o.ScriptPubKey
			vout = append(vout, M{"value": flt(o.Value), "n": itoa(o.N), "scriptPubKey": M{"asm": hs(p.Asm), "hex": hs(p.Hex), "reqSigs": itoa(p.ReqSigs), "type": hs(p.Type), "addresses": addrs}})
		}
		txs = append(txs, M{"hex": hs(t.Hex), "txid": hs(t.Txid), "version": itoa(t.Version), "size": itoa(t.Size), "vsize": itoa(t.Vsize), "weight": itoa(t.Weight), "locktime": itoa(t.LockTime), "vin": vin, "vout": vout})
	}
	return M{"hash": hs(b.Hash), "confirmations": itoa(b.Confirmations), "strippedsize": itoa(b.StrippedSize), "size": itoa(b.Size), "weight": itoa(b.Weight), "height": itoa(b.Height),
		"version": itoa(b.Version), "versionHex": hs(b.VersionHex), "merkleroot": hs(b.MerkleRoot), "tx": txs, "nTx": itoa(b.NTx), "time": itoa(b.Time), "nonce": itoa(b.Nonce), "bits": hs(b.Bits),
		"difficulty": flt(b.Difficulty), "chainwork": hs(b.ChainWork), "previousblockhash": hs(b.PreviousHash), "nextblockhash": hs(b.NextHash)}
}

func rpcCall(c *xrpc.Client, m, arg string) M {
	switch m {
	case "getblockhash":
		n, err := strconv.Atoi(arg)
		if err != nil {
			panic("harness: " + err.Error())
		}
		v, err := c.GetBlockHash(n)
		return okm(err, M{"v": hs(v)})
	case "getblockcount":
		v, err := c.GetBlockCount()
		return okm(err, M{"v": itoa(v)})
	case "getblockheader":
		v, err := c.GetBlockHeader(string(unhx(arg)))
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": true, "v": rpcHeader(v)}
	case "getblock":
		v, err := c.GetBlock(string(unhx(arg)))
		if err != nil {
			return M{"ok": false}
		}
		return M{"ok": true, "v": rpcBlock(v)}
	}
	panic("harness: method " + m)
}

func rpcWorld(init A, srv *rpcServer) World {
	cl := xrpc.NewClient(srv.URL[len("http://"):], string(init.hex("user")), string(init.hex("pass")))
	one := func(c A) M {
		key := rpcKey(c.str("m"), c.str("arg"))
		seen := &rpcSeen{reply: c.obj("reply")}
		srv.mu.Lock()
		srv.want[key] = seen
		srv.mu.Unlock()
		r := rpcCall(cl, c.str("m"), c.str("arg"))
		srv.mu.Lock()
		defer srv.mu.Unlock()
		if seen.req == nil {
			seen.req = M{"m": "no such request"}
		}
		r["req"] = seen.req
		return r
	}
	return func(op string, a A) M {
		switch op {
		case "call":
			return one(a)
		case "many":
			cs := a.objs("calls")
			out := make([]M, len(cs))
			together(len(cs), func(k int) { out[k] = one(cs[k]) })
			return M{"all": out}
		case "refused":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic("harness: " + err.Error())
			}
			addr := l.Addr().String()
			l.Close()
			// nobody else may have taken the port meanwhile: an unused address of the loopback net
			r := rpcCall(xrpc.NewClient(strings.Replace(addr, "127.0.0.1", "127.83.17.9", 1), "u", "p"), a.str("m"), a.str("arg"))
			delete(r, "v")
			return r
		}
		panic("harness: op " + op)
	}
}

var rpcMethods = []string{"getblockhash", "getblockcount", "getblockheader", "getblock"}

type jfield struct {
	name string
	kind interface{} // "str", "flt", []jfield, [2]string (bounds), jlist
}
type jlist struct{ e interface{} }

var (
	ji32  = [2]string{"-2147483648", "2147483647"}
	ji64  = [2]string{"-9223372036854775808", "9223372036854775807"}
	ju32  = [2]string{"0", "4294967295"}
	ju64  = [2]string{"0", "18446744073709551615"}
	jhead = []jfield{{"hash", "str"}, {"confirmations", ji64}, {"height", ji64}, {"version", ji64}, {"versionHex", "str"}, {"merkleroot", "str"}, {"time", ju64}, {"mediantime", ji64}, {"nonce", ji64}, {"bits", "str"}, {"difficulty", "flt"}, {"chainwork", "str"}, {"previousblockhash", "hash"}, {"nextblockhash", "hash"}}
	jtx   = []jfield{{"hex", "str"}, {"txid", "str"}, {"version", ji32}, {"size", ju32}, {"vsize", ju32}, {"weight", ju32}, {"locktime", ju32},
		{"vin", jlist{[]jfield{{"coinbase", "str"}, {"txid", "str"}, {"vout", ji64}, {"scriptSig", []jfield{{"asm", "str"}, {"hex", "str"}}}, {"sequence", ju32}}}},
		{"vout", jlist{[]jfield{{"value", "flt"}, {"n", ji64}, {"scriptPubKey", []jfield{{"asm", "str"}, {"hex", "str"}, {"reqSigs", ji64}, {"type", "str"}, {"addresses", jlist{"str"}}}}}}}}
	jblock = []jfield{{"hash", "str"}, {"confirmations", ju64}, {"strippedsize", ji32}, {"size", ji32}, {"weight", ji32}, {"height", ji64}, {"version", ji32}, {"versionHex", "str"}, {"merkleroot", "str"},
		{"tx", jlist{jtx}}, {"nTx", ju32}, {"time", ji64}, {"nonce", ju32}, {"bits", "str"}, {"difficulty", "flt"}, {"chainwork", "str"}, {"previousblockhash", "str"}, {"nextblockhash", "str"}}
)

func schemaOf(m string) interface{} {
	return map[string]interface{}{"getblockhash": "hash", "getblockcount": ji64, "getblockheader": jhead, "getblock": jblock}[m]
}

// rjson: a value that conforms to the schema or, with small probability per place, does not.
func rjson(r *rand.Rand, s interface{}, bad int) M {
	if bad > 0 && r.Intn(bad) == 0 {
		if s == "flt" { // large numerals have no exact float
			return pick(r, M{"k": "bool"}, M{"k": "str", "s": "31"}, M{"k": "int", "s": "-7"}, M{"k": "flt", "s": "-1.5"}, M{"k": "list", "e": []M{}})
		}
		return pick(r, M{"k": "bool"}, M{"k": "str", "s": "31"}, M{"k": "int", "s": "7"}, M{"k": "flt", "s": "1.5"}, M{"k": "list", "e": []M{}}, M{"k": "list", "e": []M{{"k": "int", "s": "1"}}},
			M{"k": "int", "s": "-1"}, M{"k": "int", "s": "18446744073709551616"}, M{"k": "int", "s": "9223372036854775808"}, M{"k": "int", "s": "4294967296"}, M{"k": "int", "s": "2147483648"}, M{"k": "obj", "f": []M{}})
	}
	switch s := s.(type) {
	case string:
		if s == "flt" {
			v := pick(r, 0, 1, 0.1, 50, 0.00000001, 20999999.9769, 16307.420938523983, r.Float64()*21e6, float64(r.Int63n(1<<52)))
			t := flt(v)
			if strings.Contains(t, ".") {
				return M{"k": "flt", "s": t}
			}
			return M{"k": "int", "s": t}
		}
		return M{"k": "str", "s": hx([]byte(pick(r, hx(rbytes(r, 32)), hx(rbytes(r, 32)), "", "x", "OP_DUP OP_HASH160 \"q\" \\ /", "h\u00e9llo \u4e16\u754c \U0001f600 \x01\n", hx(rbytes(r, r.Intn(200))))))}
	case [2]string:
		v := pick(r, s[0], s[1], "0", "1", strconv.Itoa(r.Intn(1<<31)))
		if s == ju64 || s == ji64 {
			v = pick(r, v, u64s(uint64(r.Int63())))
		}
		return M{"k": "int", "s": v}
	case jlist:
		l := []M{}
		for k := r.Intn(3); k > 0; k-- {
			l = append(l, rjson(r, s.e, bad*2))
		}
		return M{"k": "list", "e": l}
	case []jfield:
		f := []M{}
		for _, x := range s {
			if r.Intn(12) > 0 {
				f = append(f, M{"n": x.name, "v": rjson(r, x.kind, bad*4)})
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			f = append(f, M{"n": fmt.Sprintf("unknown field %d", k), "v": pick(r, M{"k": "null"}, M{"k": "int", "s": "77"}, M{"k": "obj", "f": []M{{"n": "hash", "v": M{"k": "str", "s": "30"}}}})})
		}
		r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		return M{"k": "obj", "f": f}
	}
	panic("harness: schema")
}

func rreply(r *rand.Rand, m string) M {
	p := M{"status": 200, "id": "same", "err": pick(r, "null", "null", "none"), "body": "whole", "res": rjson(r, schemaOf(m), 0)}
	switch r.Intn(16) {
	case 0, 1, 2:
		p["res"] = rjson(r, schemaOf(m), 6)
	case 3:
		p["status"] = pick(r, 299, 300, 301, 400, 401, 403, 404, 500, 500, 503, 201, 206)
	case 4:
		p["status"], p["err"], p["res"] = 500, "obj", M{"k": pick(r, "null", "none")}
	case 5:
		p["id"] = pick(r, "other", "none", "null")
	case 6, 7:
		p["err"] = pick(r, "obj", "empty", "bad")
		if r.Intn(2) == 0 {
			p["res"] = M{"k": pick(r, "null", "none")}
		}
	case 8:
		p["res"] = M{"k": pick(r, "null", "none")}
	case 9, 10:
		p["body"] = pick(r, "cut", "tail", "list", "null", "empty", "text", "short", "drop")
	case 11: // the value another method returns
		p["res"] = rjson(r, schemaOf(pick(r, rpcMethods...)), 0)
	}
	return p
}

func rarg(r *rand.Rand, m string) string {
	switch m {
	case "getblockhash":
		return strconv.Itoa(pick(r, 0, 1, -1, r.Intn(1<<30), 1<<40))
	case "getblockcount":
		return ""
	}
	return hx([]byte(pick(r, hx(rbytes(r, 32)), hx(rbytes(r, 32)), "", "not a hash", "\"q\" \u00e9")))
}

func suiteC23(t *Rec) {
	own := func(init A, f func(w World)) {
		s := newRPCServer()
		defer func() { close(s.stop); s.Close() }()
		f(rpcWorld(init, s))
	}
	srv := newRPCServer()
	defer func() { close(srv.stop); srv.Close() }()
	var turn sync.Mutex
	rerun(t, func(init A) World {
		w := rpcWorld(init, srv)
		return func(op string, a A) M {
			turn.Lock()
			defer turn.Unlock()
			return w(op, a)
		}
	})
	inits := func(n int) M {
		r := t.rng(fmt.Sprint("rpc-init", n))
		return M{"user": hs(pick(r, "", "user", "a b", "\u00fcser")), "pass": hs(pick(r, "", "pass:word", "p", hx(rbytes(r, 8)), hx(rbytes(r, 10+r.Intn(300)))))}
	}
	t.Par(t.N(400, 6000), func(n int) {
		init := inits(n)
		t.Run(fmt.Sprintf("calls/%d", n), init, func(s *S) {
			r := s.R
			own(norm(init), func(w World) {
				for k := 0; k < 1+r.Intn(6); k++ {
					m := pick(r, rpcMethods...)
					if r.Intn(5) > 0 {
						s.Call(w, "call", M{"m": m, "arg": rarg(r, m), "reply": rreply(r, m)})
						continue
					}
					cs := []M{}
					seen := map[string]bool{}
					for len(cs) < 2+r.Intn(8) {
						m := pick(r, rpcMethods...)
						arg := rarg(r, m)
						if seen[rpcKey(m, arg)] {
							continue
						}
						seen[rpcKey(m, arg)] = true
						cs = append(cs, M{"m": m, "arg": arg, "reply": rreply(r, m)})
					}
					s.Call(w, "many", M{"calls": cs})
				}
			})
		})
	})
	for _, m := range rpcMethods {
		m := m
		t.Run("down/"+m, inits(0), func(s *S) {
			r := s.R
			own(norm(inits(0)), func(w World) {
				s.Call(w, "refused", M{"m": m, "arg": rarg(r, m)})
				p := rreply(r, m)
				p["body"] = "hang"
				if t.tier == "thorough" || m == "getblock" {
					s.Call(w, "call", M{"m": m, "arg": rarg(r, m), "reply": p})
				}
			})
		})
	}
}
