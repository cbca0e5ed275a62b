exec(open("/verif/tools/plants/a.py").read().split('seed("c01-notif-skip"')[0])

seed("c10-depth-mask", "C10", "an extended key deeper than 127 levels, given as text",
     "the depth of a parsed extended key loses its top bit",
     [("xcore/bip32/hdkey.go", "	k.depth = data[4]\n", "	k.depth = data[4] & 0x7f\n")],
     G("bip32 network", """func main() {
	hd := bip32.NewHDKey(make([]byte, 32))
	for i := 0; i < 130; i++ {
		c, err := hd.Derive(uint32(i))
		if err != nil {
			fail("%v", err)
		}
		hd = c
	}
	s := hd.ToString(network.MainNet)
	k, err := bip32.NewHDKeyFromString(s)
	if err != nil || k.ToString(network.MainNet) != s {
		fail("%v", err)
	}
}
"""))
seed("c17-root-prefix", "C17", "a root of which bytes are missing",
     "a truncated root is accepted",
     [("xcrypto/merkle.go", "	return bytes.Equal(hash, root)\n", "	return bytes.HasPrefix(hash, root)\n")],
     G("xcrypto", """func main() {
	l := [][]byte{xcrypto.Sha256([]byte{1}), xcrypto.Sha256([]byte{2}), xcrypto.Sha256([]byte{3})}
	m := xcrypto.NewMerkle(l)
	if m.Verify(l[0], m.Root()[:8], m.Proofs(l[0])) || m.Verify(l[0], nil, m.Proofs(l[0])) {
		fail("accepted")
	}
}
"""))
seed("c23-code-zero", "C23", "a server error whose code is zero next to a result",
     "a server error without a code is not reported",
     [("xrpc/client.go", "	if resp.Error != nil {\n", "	if resp.Error != nil && resp.Error.Code != 0 {\n")],
     G("xrpc net/http net/http/httptest strings", """func main() {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprint(w, `{"result":5,"error":{"code":0,"message":"warming up"},"id":0}`)
	}))
	defer s.Close()
	n, err := xrpc.NewClient(strings.TrimPrefix(s.URL, "http://"), "u", "p").GetBlockCount()
	if err == nil {
		fail("%v", n)
	}
}
"""))
seed("c25-base58-mod", "C25", "two goroutines encoding at once",
     "base58 digits of different encodings get mixed up",
     [("xbase/base58.go", "	bigZero  = big.NewInt(0)\n", "	bigZero  = big.NewInt(0)\n	bigDigit = new(big.Int)\n"),
      ("xbase/base58.go", "		mod := new(big.Int)\n		x.DivMod(x, bigRadix, mod)\n		answer = append(answer, alphabet[mod.Int64()])\n", "		x.DivMod(x, bigRadix, bigDigit)\n		answer = append(answer, alphabet[bigDigit.Int64()])\n")],
     G("xbase sync bytes", """func main() {
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad[g]++
				}
			}()
			b := bytes.Repeat([]byte{byte(g + 1)}, 60)
			want := xbase.Base58Decode(xbase.Base58Encode(b))
			for i := 0; i < 3000; i++ {
				if !bytes.Equal(xbase.Base58Decode(xbase.Base58Encode(b)), b) || !bytes.Equal(want, b) {
					bad[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	for g := range bad {
		if bad[g] > 0 {
			fail("%v", bad)
		}
	}
}
"""), race=True)
seed("c24-b58-cap", "C24", "base58 text with a leading-one run as long as the text",
     "text made of ones only loses a byte",
     [("xbase/base58.go", "	for numZeros = 0; numZeros < len(b); numZeros++ {\n", "	for numZeros = 0; numZeros < len(b)-1; numZeros++ {\n")],
     G("xbase", """func main() {
	if len(xbase.Base58Decode("111")) != 3 {
		fail("%x", xbase.Base58Decode("111"))
	}
}
"""))
seed("c01-swap-n", "C01", "a stack with exactly three items and a swap of two pairs",
     "swapping pairs on a stack of three items leaves it half changed instead of failing",
     [("xvm/stack.go", "	entry := 2*n - 1\n", "	entry := 2*n - 1\n	if int(entry) == len(s.stk) && n > 1 {\n		entry--\n	}\n")],
     G("xvm", """func main() {
	s := xvm.NewStack()
	for i := 1; i <= 3; i++ {
		s.PushByteArray([]byte{byte(i)})
	}
	if s.SwapN(2) == nil {
		fail("%v", s)
	}
}
"""))
