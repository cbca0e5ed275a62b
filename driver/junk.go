package main

import (
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sync"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xrpc"
	"github.com/keyfuse/tokucore/xvm"
)

func init() { suites["C20"] = suiteC20 }

var junkKey = xcrypto.PrvKeyFromBytes(sha([]byte("a key")))
var junkHd = bip32.NewHDKey([]byte("0123456789abcdef"))

// junkFeed gives the bytes to a decoder and, where it makes something of them, uses that.
func junkFeed(dec, arg string, b []byte, body *[]byte, rpc *xrpc.Client) error {
	switch dec {
	case "tx", "txs":
		tx := xcore.NewTransaction()
		var err error
		if dec == "tx" {
			err = tx.Deserialize(b)
		} else {
			err = tx.DeserializeNoWitness(b)
		}
		tx.Serialize() // in any case
		tx.ToString()
		if err != nil {
			return err
		}
		tx.SerializeNoWitness()
		tx.Hash()
		tx.WitnessID()
		tx.HasWitness()
		tx.BaseSize()
		tx.WitnessSize()
		tx.Weight()
		tx.Vsize()
		tx.Fees()
		tx.ToString()
		tx.Verify()
	case "script":
		_ = xvm.DisasmString(b)
		xvm.RemoveOpcode(b, 0xab)
		r := xvm.NewScriptReader(b)
		if _, err := r.NextInstruction(); err == nil {
			r.DisasmRemaining()
		}
		_, err := xvm.NewScriptReader(b).AllInstructions()
		return err
	case "lock":
		s, err := xcore.ParseLockingScript(b)
		if err != nil {
			return err
		}
		s.GetAddress().ToString(network.MainNet)
		s.GetRawLockingScriptBytes()
		s.GetFinalLockingScriptBytes(b)
		s.GetWitnessScriptCode(b)
		s.WitnessToUnlockingScriptBytes([][]byte{b, b})
		s.GetRawUnlockingScriptBytes(nil, b)
		s.GetWitnessUnlockingScriptBytes(nil, b)
		s.GetScriptVersion()
	case "num":
		n, err := xvm.MakeScriptNum(b, 4)
		if err != nil {
			return err
		}
		n.Bytes()
		n.Int32()
	case "run":
		k := len(b) / 2
		if arg == "lock" {
			k = 0
		}
		return stubEngine("stub", nil).Verify(b[:k], b[k:])
	case "msg":
		m := emptyMsg(arg)
		if err := m.Decode(b); err != nil {
			return err
		}
		m.Encode()
		m.Size()
		_ = fmt.Sprintf("%v", m)
	case "conn":
		d := newDuct()
		d.put(b)
		d.shut(false)
		s := xprotocol.NewStream(&memConn{in: d, out: newDuct()}, mainOr(A{"net": "main"}).Magic)
		for {
			m, err := s.ReadMessage()
			if err != nil {
				return err
			}
			m.Encode()
		}
	case "addr":
		a, err := xcore.DecodeAddress(string(b), mainOr(A{"net": arg}))
		if err != nil {
			return err
		}
		a.LockingScript()
		a.ToString(network.TestNet)
	case "b58":
		// nothing is what it has instead of an error
		if len(xbase.Base58Decode(string(b))) == 0 && len(b) > 0 {
			return fmt.Errorf("nothing")
		}
	case "b58c":
		_, _, err := xbase.Base58CheckDecode(string(b))
		return err
	case "b32":
		_, _, err := xbase.Bech32Decode(string(b))
		return err
	case "segwit":
		_, _, _, err := xbase.WitnessDecode(string(b))
		return err
	case "id":
		_, err := xbase.NewIDFromString(string(b))
		return err
	case "idb":
		xbase.NewIDToString(b)
	case "buf":
		rd := xbase.NewBufferReader(b)
		var err error
		for k := 0; k < len(b)+2; k++ {
			switch {
			case k < len(b) && b[k]%5 == 0:
				_, err = rd.ReadVarBytes()
			case k < len(b) && b[k]%5 == 1:
				_, err = rd.ReadVarString()
			case k < len(b) && b[k]%5 == 2:
				_, err = rd.ReadVarInt()
			case k < len(b) && b[k]%5 == 3:
				var n uint32
				if n, err = rd.ReadU32(); err == nil {
					_, err = rd.ReadBytes(int(int32(n)))
				}
			default:
				_, err = rd.ReadU64()
			}
		}
		return err
	case "pub":
		k, err := xcrypto.PubKeyFromBytes(b)
		secp256k1.SecUnmarshal(secp256k1.SECP256K1(), b)
		if err != nil {
			return err
		}
		k.Serialize()
		k.Hash160()
		k.Add(k)
	case "prv":
		k := xcrypto.PrvKeyFromBytes(b)
		k.Serialize()
		k.PubKey().SerializeCompressed()
		k.Add(b)
	case "der":
		if xcrypto.EcdsaVerify(junkKey.PubKey(), sha([]byte("m")), b) == nil {
			panic("harness: junk verifies")
		}
		return xcrypto.NewSignatureEcdsa().Deserialize(b)
	case "sch":
		err := xcrypto.NewSignatureSchnorr().Deserialize(b)
		if e := xcrypto.SchnorrVerify(junkKey.PubKey(), sha([]byte("m")), b); e == nil {
			panic("harness: junk verifies")
		}
		return err
	case "hd":
		k, err := bip32.NewHDKeyFromString(string(b))
		if err != nil {
			return err
		}
		k.ToString(network.MainNet)
		k.Derive(0)
		k.Derive(1 << 31)
		k.HDPublicKey().PublicKey()
	case "path":
		_, err := junkHd.DeriveByPath(string(b))
		return err
	case "mnem":
		bip39.IsMnemonicValid(string(b))
		bip39.MnemonicToByteArray(string(b), len(b)%2 == 0)
		bip39.NewSeedWithErrorChecking(string(b), "")
		_, err := bip39.EntropyFromMnemonic(string(b))
		return err
	case "valid":
		if !bip39.IsMnemonicValid(string(b)) {
			return fmt.Errorf("not valid")
		}
	case "load":
		_, err := xvm.NewScriptBuilder().Load(string(b)).Script()
		return err
	case "merkle":
		var leaves [][]byte
		for k := 0; k+32 <= len(b) && k < 320; k += 32 {
			leaves = append(leaves, b[k:k+32])
		}
		m := xcrypto.NewMerkle(leaves)
		var p []xcrypto.Node
		for k := 0; k < len(b); k += 33 {
			h := b[k:]
			if len(h) > 32 {
				h = h[:32]
			}
			p = append(p, xcrypto.Node{Hash: h, Position: []string{"left", "right", "", "x"}[b[k]%4]})
		}
		m.Proofs(b)
		m.Root()
		if !m.Verify(b, b, p) {
			return fmt.Errorf("no proof")
		}
	case "share": // what a peer sends in the multi-party protocols
		p, err := xcrypto.NewSchnorrParty(junkKey)
		if err != nil {
			panic(err)
		}
		sharePub := p.Phase1(junkKey.PubKey())
		r := p.Phase2(sha([]byte("m")))
		shareR := p.Phase3(r)
		if _, err := p.Phase4(sharePub, shareR); err != nil {
			return err
		}
		_, err = p.Phase5(shareR, b, b)
		return err
	case "cipher":
		_, err := junkPaillier().Decrypt(new(big.Int).SetBytes(b))
		return err
	case "rpc":
		*body = b
		var err error
		switch arg {
		case "getblockhash":
			_, err = rpc.GetBlockHash(1)
		case "getblockcount":
			_, err = rpc.GetBlockCount()
		case "getblockheader":
			_, err = rpc.GetBlockHeader("00")
		default:
			_, err = rpc.GetBlock("00")
		}
		return err
	case "coin":
		// text and script of a coin somebody else names
		prv := junkKey
		addr := xcore.NewPayToPubKeyHashAddress(make([]byte, 20))
		half := len(b) / 2
		coin := xcore.NewCoinBuilder().AddOutput(string(b[:half]), 0, 1000000, string(b[half:])).ToCoins()[0]
		if arg == "hex" {
			coin = xcore.NewCoinBuilder().AddOutput(hx(sha(b)), 0, 1000000, hx(b)).ToCoins()[0]
		}
		_, err := xcore.NewTransactionBuilder().AddCoin(coin).AddKeys(prv).To(addr, 1000).Then().SetChange(addr).SendFees(1000).Then().Sign().BuildTransaction()
		return err
	case "redeem":
		h := xcrypto.Hash160(b)
		lock := cat([]byte{0xa9, 20}, h, []byte{0x87})
		if arg == "wsh" {
			lock = cat([]byte{0, 32}, sha(b))
		}
		tx := xcore.NewTransaction()
		in, err := xcore.NewTxIn(sha(b), 0, 1000, lock, b)
		if err != nil {
			return err
		}
		tx.AddInput(in)
		tx.AddOutput(xcore.NewTxOut(1, lock))
		if err := tx.SignIndex(0, true, 1, junkKey); err != nil {
			return err
		}
		return tx.Verify()
	default:
		panic("harness: decoder " + dec)
	}
	return nil
}

var junkPai struct {
	sync.Once
	k *paillier.PrvKey
}

func junkPaillier() *paillier.PrvKey {
	junkPai.Do(func() {
		_, k, err := paillier.GenerateKeyPair(1024)
		if err != nil {
			panic(err)
		}
		junkPai.k = k
	})
	return junkPai.k
}

var junkDecs = []struct {
	dec  string
	args []string
}{
	{"tx", nil}, {"txs", nil}, {"script", nil}, {"lock", nil}, {"num", nil}, {"run", []string{"both", "lock"}}, {"msg", []string{"version", "verack", "inv", "getdata", "headers", "getheaders", "ping", "pong", "tx", "reject", "other"}},
	{"conn", nil}, {"addr", []string{"main", "test"}}, {"b58", nil}, {"b58c", nil}, {"b32", nil}, {"segwit", nil}, {"id", nil}, {"idb", nil}, {"buf", nil}, {"pub", nil}, {"prv", nil}, {"der", nil}, {"sch", nil},
	{"hd", nil}, {"path", nil}, {"mnem", []string{"english"}}, {"valid", []string{"english"}}, {"load", nil}, {"merkle", nil}, {"share", nil}, {"cipher", nil}, {"rpc", rpcMethods}, {"coin", []string{"raw", "hex"}}, {"redeem", []string{"sh", "wsh"}},
}

// junkGood: something the decoder accepts, or nearly.
func junkGood(r *rand.Rand, dec, arg string) []byte {
	pubs := func(n int) [][]byte {
		var l [][]byte
		for k := 0; k < n; k++ {
			l = append(l, xcrypto.PrvKeyFromBytes(rkey(r)).PubKey().SerializeCompressed())
		}
		return l
	}
	switch dec {
	case "tx", "txs":
		if r.Intn(8) == 0 {
			return unhx(pick(r, "01000000000100000000000000", "0100000000000000000000", "010000000001010000"))
		}
		nw := r.Intn(4) - 1
		if dec == "txs" {
			nw = -1
		}
		return rawTx(r, 1+r.Intn(3), r.Intn(3), nw, pick(r, 0, 25, 107, 300))
	case "script", "run", "redeem", "coin":
		b := []byte{}
		for k := r.Intn(12); k > 0; k-- {
			if r.Intn(3) == 0 {
				b = append(b, push(rbytes(r, pick(r, 0, 1, 20, 33, 75, 76, 255, 256, 520)))...)
			} else {
				b = append(b, pick(r, byte(r.Intn(256)), byte(0x51+r.Intn(16)), byte(0x63+r.Intn(7)), 0x76, 0x7c, 0x93, 0xa9, 0xac, 0xae, 0x79, 0x7a))
			}
		}
		if r.Intn(3) == 0 {
			b = multisigScript(1+r.Intn(3), pubs(1+r.Intn(3)))
		}
		if dec == "coin" && arg == "raw" {
			return []byte(hx(sha(b)) + hx(b))
		}
		if dec == "coin" {
			return rlock(r)
		}
		return b
	case "lock":
		return rlock(r)
	case "num":
		return rbytes(r, r.Intn(6))
	case "msg":
		for {
			m := norm(rmsg(r))
			if m.str("cmd") == arg || arg == "other" {
				return msgFrom(m.str("cmd"), m.obj("f")).Encode()
			}
		}
	case "conn":
		b := rframe(r, "main")
		for r.Intn(2) == 0 {
			b = append(b, rframe(r, "main")...)
		}
		return b
	case "addr", "b58", "b58c", "segwit", "b32":
		t := pick(r, "p2pkh", "p2sh", "p2wpkh", "p2wsh")
		if dec[:2] == "b5" {
			t = "p2pkh"
		} else if dec != "addr" {
			t = pick(r, "p2wpkh", "p2wsh")
		}
		n := 20
		if t == "p2wsh" {
			n = 32
		}
		return []byte(addrOf(A{"t": t, "h": hx(rbytes(r, n))}).ToString(mainOr(A{"net": pick(r, "main", "test")})))
	case "id":
		return []byte(hx(rbytes(r, pick(r, 32, 32, 32, 31, 33))))
	case "pub":
		p := xcrypto.PrvKeyFromBytes(rkey(r)).PubKey()
		return pick(r, p.SerializeCompressed(), p.SerializeUncompressed(), p.SerializeHybrid())
	case "prv":
		return rbytes(r, pick(r, 32, 32, 0, 1, 31, 33, 64))
	case "der":
		s, _ := xcrypto.EcdsaSign(xcrypto.PrvKeyFromBytes(rkey(r)), rbytes(r, 32))
		return s
	case "sch", "share":
		s, _ := xcrypto.SchnorrSign(xcrypto.PrvKeyFromBytes(rkey(r)), rbytes(r, 32))
		return s
	case "hd":
		k := bip32.NewHDKey(rbytes(r, 16))
		if r.Intn(2) == 0 {
			k, _ = k.Derive(r.Uint32() >> 1)
		}
		if r.Intn(2) == 0 {
			k = k.HDPublicKey()
		}
		return []byte(k.ToString(mainOr(A{"net": pick(r, "main", "test")})))
	case "path":
		return []byte(pick(r, "m", "", "m/0", "m/44'/0'/0'/0/7", "m/2147483647'/1", "m/4294967295", "/", "m/", "m//", "m/00/1", "0/1", "M/1", "m/-1", "m/+1", "m/1h", "m/1''", "m/'", "m/99999999999999999999", "m/2147483648'"))
	case "mnem", "valid":
		m, _ := bip39.NewMnemonic(rbytes(r, pick(r, 16, 20, 24, 28, 32)))
		return []byte(m)
	case "load":
		return []byte(pick(r, "OP_DUP OP_HASH160 OP_DATA_20 00112233445566778899aabbccddeeff00112233 OP_EQUALVERIFY OP_CHECKSIG", "OP_1 OP_2 OP_ADD", "OP_PUSHDATA1 4c", "", "x", "OP_DATA_3 aa"))
	case "rpc":
		return []byte(`{"id":0,"error":null,"result":` + jsonText(r, norm(rjson(r, schemaOf(arg), 10))) + `}`)
	case "cipher":
		return rbytes(r, r.Intn(300))
	}
	return rbytes(r, pick(r, 0, 1, 32, 33, 64, 65, r.Intn(300)))
}

// counts and lengths that promise too much
var junkHuge = [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0, 0, 0, 0x10},
	{0xfd, 0xff, 0xff}, {0xff, 1, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xfe, 0x40, 0x9c, 0, 0}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {0x4e, 0, 0, 0, 0x80}, {0x4d, 0xff, 0xff}, {0x4c, 0xff}}

var junkTextual = map[string]bool{"addr": true, "b58": true, "b58c": true, "b32": true, "segwit": true, "id": true, "hd": true, "path": true, "mnem": true, "valid": true, "load": true, "rpc": true}

func junkMangled(r *rand.Rand, dec, arg string) []byte {
	b := junkGood(r, dec, arg)
	if r.Intn(8) == 0 {
		return b
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch r.Intn(6) {
		case 0:
			if len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		case 1, 2:
			if len(b) > 0 && !junkTextual[dec] {
				i := r.Intn(len(b))
				b = cat(b[:i], pick(r, junkHuge...), b[i+1:])
			} else if len(b) > 0 {
				i := r.Intn(len(b))
				if r.Intn(6) == 0 {
					b = cat(b[:i], []byte{b[i] ^ byte(1<<pick(r, 7, 7, 5, r.Intn(8)))}, b[i+1:])
					continue
				}
				b = cat(b[:i], []byte(pick(r, "0", " ", "'", "/", "1", "O", "\x00", "\xff", "é", "99999999999999999999", "OP_", "\"", "{", "[", "[[[[[[[[", "null", "-")), b[i+pick(r, 0, 1):])
			}
		case 3:
			b = cat(b, rbytes(r, r.Intn(20)))
		case 4:
			x := junkGood(r, dec, arg)
			b = cat(b[:r.Intn(len(b)+1)], x[r.Intn(len(x)+1):])
		default:
			b = mangle(r, b)
		}
	}
	return b
}

func junkWorld(t *Rec) func(A) World {
	var body []byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		ioutil.ReadAll(q.Body)
		w.Write(body)
	}))
	cl := xrpc.NewClient(srv.URL[7:], "u", "p")
	junkPaillier()
	bip39.SetWordList(words.English)
	var turn sync.Mutex
	return func(A) World {
		return func(op string, a A) M {
			b := []byte{}
			if op == "feed" {
				b = a.hex("b")
			} else {
				unit := a.hex("unit")
				b = append(b, a.hex("head")...)
				for k := a.int("n"); k > 0; k-- {
					b = append(b, unit...)
				}
				b = append(b, a.hex("tail")...)
			}
			turn.Lock()
			defer turn.Unlock()
			keep := string(b)
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			err := junkFeed(a.str("dec"), a.str("arg"), b, &body, cl)
			runtime.ReadMemStats(&m1)
			if string(b) != keep {
				panic("the input was changed")
			}
			r := M{"out": "value", "kb": int((m1.TotalAlloc - m0.TotalAlloc) / 1024)}
			if err != nil {
				r["out"] = "error"
			}
			if op == "flood" {
				r["n"] = len(b)
			}
			return r
		}
	}
}

func suiteC20(t *Rec) {
	mk := junkWorld(t)
	rerun(t, mk)
	w := mk(nil)
	for _, d := range junkDecs {
		args := d.args
		if args == nil {
			args = []string{""}
		}
		for _, arg := range args {
			d, arg := d, arg
			slow := map[string]int{"der": 2, "sch": 3, "hd": 3, "share": 6, "prv": 3, "coin": 2, "cipher": 4, "path": 3, "mnem": 2, "rpc": 3, "redeem": 2}[d.dec]
			if slow == 0 {
				slow = 1
			}
			for k := 0; k < t.N(40, 500)/slow/len(args)+2; k++ {
				t.Run(fmt.Sprintf("%s%s/%d", d.dec, arg, k), M{"x": 0}, func(s *S) {
					for n := 0; n < 8; n++ {
						b := junkMangled(s.R, d.dec, arg)
						if n == 0 && k < 2 {
							b = [][]byte{{}, {0}}[k]
						}
						if n == 1 {
							b = rbytes(s.R, s.R.Intn(100))
						}
						if s.Call(w, "feed", M{"dec": d.dec, "arg": arg, "b": hx(b)}) == nil {
							return
						}
					}
				})
			}
			long := t.N(60000, 400000)
			if x := map[string]int{"b58": 20000, "b58c": 20000, "addr": 20000, "hd": 20000, "path": 1500, "coin": 30000, "cipher": 3000, "prv": 300, "run": 9000, "redeem": 9000}[d.dec]; x > 0 {
				long = x
			}
			t.Run(fmt.Sprintf("flood/%s%s", d.dec, arg), M{"x": 0}, func(s *S) {
				r := s.R
				for n := 0; n < t.N(10, 40); n++ {
					g := junkMangled(r, d.dec, arg)
					i := r.Intn(len(g) + 1)
					unit := pick(r, []byte{0}, []byte{0xff}, []byte{1}, []byte("1"), []byte("/"), []byte(" "), []byte{0x76}, []byte{0x6f}, []byte{0x63}, []byte{0x01, 0x01}, []byte("["), []byte("{\"a\":"), []byte("abandon "), []byte("z"), g, rbytes(r, 1+r.Intn(40)))
					if len(unit) == 0 {
						unit = []byte{7}
					}
					head := g[:i]
					if n%3 == 1 { // a promise that is nearly kept
						head = cat(head, []byte{0xfe, byte(long), byte(long >> 8), byte(long >> 16), 0})
					}
					if s.Call(w, "flood", M{"dec": d.dec, "arg": arg, "head": hx(head), "unit": hx(unit), "n": long / len(unit), "tail": hx(g[i:])}) == nil {
						return
					}
				}
			})
		}
	}
}
