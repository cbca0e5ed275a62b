------------------------------- MODULE MC_Junk ------------------------------
(* Encodings the formats have, from the specification itself, with every cut,  *)
(* with bytes changed, put in and taken out, and with counts and lengths that  *)
(* promise more than there is, at every place of each.                         *)
EXTENDS JunkSpec, Script, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Sec(s) == Sha256(StrToBytes(s))
Key(k) == T!Enc33(T!PBase(BigOfBytes(Sec(k))))
V8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
In(k, sig, wit) == [T!BareIn(Sec(k), <<1, 0, 0, 0>>, sig, Rep(255, 4)) EXCEPT !.wit = wit]
Out(n, s) == [val |-> V8(n), s |-> s]
TxA == [T!EmptyTx EXCEPT !.ins = <<In("a", <<1, 170>>, << >>), In("b", << >>, << >>)>>, !.outs = <<Out(7, T!P2PKH(Hash160(Sec("x")))), Out(0, << >>)>>]
TxW == [T!EmptyTx EXCEPT !.ins = <<In("a", << >>, <<<<1, 2, 3>>, << >>>>), In("b", <<81>>, << >>)>>, !.outs = <<Out(9, <<81>>)>>]
Net == A!MainNet
Ver == [ver |-> "70015", serv |-> "1", time |-> "2", servyou |-> "3", addryou |-> Hx(Rep(5, 16)), portyou |-> 8333, servme |-> "4", addrme |-> Hx(Rep(6, 16)), portme |-> 18333,
        nonce |-> "7", ua |-> Hx(StrToBytes("/x/")), last |-> "9", relay |-> 1]
Inv == [items |-> <<[t |-> "1", h |-> Hx(Sec("i"))], [t |-> "2", h |-> Hx(Sec("j"))]>>]
Hdr == [v |-> "1", prev |-> Hx(Sec("p")), root |-> Hx(Sec("r")), time |-> "5", bits |-> "6", nonce |-> "7"]
Hdk == H!Master(Sec("hd"))
Sh == Sec("script")
MsgOf(t, f) == [dec |-> "msg", arg |-> t, b |-> P!Encode([t |-> P!TypeOf(t), f |-> f])]
By(d, b) == [dec |-> d, arg |-> "", b |-> b]
Samples == <<
  By("tx", T!SerFull(TxA)), By("tx", T!SerFull(TxW)), By("txs", T!SerStrip(TxA)),
  By("script", <<118, 169, 20>> \o Hash160(Sh) \o <<136, 172, 76, 2, 1, 1, 77, 1, 0, 5, 78, 1, 0, 0, 0, 9, 81>>),
  By("lock", T!P2PKH(Hash160(Sh))), By("lock", <<0, 32>> \o Sh), By("lock", <<169, 20>> \o Hash160(Sh) \o <<135>>), By("lock", <<81, 33>> \o Key("k") \o <<33>> \o Key("l") \o <<82, 174>>),
  By("num", <<1, 2, 3, 4>>), By("num", <<129>>),
  MsgOf("version", Ver), MsgOf("inv", Inv), MsgOf("getdata", Inv), MsgOf("headers", [items |-> <<Hdr>>]), MsgOf("getheaders", [ver |-> "70015", items |-> <<Hx(Sec("l"))>>, stop |-> Hx(Rep(0, 32))]),
  MsgOf("ping", [nonce |-> "77"]), MsgOf("reject", [cmd |-> Hx(StrToBytes("tx")), code |-> 16, reason |-> Hx(StrToBytes("why")), hash |-> Hx(Sec("z"))]),
  [dec |-> "addr", arg |-> "main", b |-> A!AddrText("p2pkh", Hash160(Sh), Net)], [dec |-> "addr", arg |-> "main", b |-> A!AddrText("p2sh", Hash160(Sh), Net)],
  [dec |-> "addr", arg |-> "main", b |-> A!AddrText("p2wpkh", Hash160(Sh), Net)], [dec |-> "addr", arg |-> "test", b |-> A!AddrText("p2wsh", Sh, A!TestNet)],
  By("b58c", C!B58CheckEncode(Hash160(Sh), 5)), By("b32", A!AddrText("p2wpkh", Hash160(Sh), Net)), By("segwit", A!AddrText("p2wsh", Sh, Net)), By("id", StrToBytes(Hx(Sh))),
  By("pub", Key("k")), By("pub", T!Enc65(T!PBase(BigOfBytes(Sec("k"))))), By("der", T!Der(BigOfBytes(Sec("r")), BigOfBytes(Sec("s")))), By("sch", Sh \o Sh),
  By("hd", H!Text(Hdk, "main")), By("hd", H!Text(H!Neuter(Hdk), "test")), By("path", StrToBytes("m/44'/0/1")),
  [dec |-> "mnem", arg |-> "english", b |-> W!Mnemonic("english", SubSeq(Sh, 1, 16))], [dec |-> "valid", arg |-> "english", b |-> W!Mnemonic("english", SubSeq(Sh, 1, 16))] >>
Textual == {"addr", "b58c", "b32", "segwit", "id", "hd", "path", "mnem", "valid"}
Costly == {"der", "hd", "mnem", "sch"}
Promise == { Rep(255, 9), Rep(255, 8) \o <<127>>, <<254, 255, 255, 255, 255>>, <<254, 255, 255, 255, 127>>, <<254, 0, 0, 0, 16>>, <<255, 1, 0, 0, 0, 1, 0, 0, 0>>, <<255, 0, 0, 0, 0, 0, 0, 0, 128>>, <<253, 255, 255>>, <<78, 255, 255, 255, 255>> }
Chars == {48, 32, 39, 47, 255}
GInits == { [k |-> k] : k \in 1..Len(Samples) }
S0 == Samples[ini.k]
Full == Deep \/ (Len(S0.b) < 80 /\ S0.dec \notin Costly)
At == IF Full THEN 1..Len(S0.b) ELSE { i \in 1..Len(S0.b) : i < 12 \/ i % 7 = 0 \/ i > Len(S0.b) - 5 }
B0 == S0.b
Cut(i) == SubSeq(B0, 1, i - 1)
Put(i, x) == Cut(i) \o x \o Drop(B0, i)            \* in place of the i-th byte
New == IF S0.dec \in Textual THEN { <<c>> : c \in Chars } \cup { << >>, <<B0[1]>> } ELSE { << >>, <<0>>, <<255>>, <<1, 1>> } \cup Promise
Bits1(x) == IF S0.dec \in Textual THEN {} ELSE { (x + 1) % 256, (x + 128) % 256 } \cup (IF Deep THEN { (x + 2 ^ j) % 256 : j \in 1..6 } ELSE {})
Tries == {B0} \cup { Cut(i) : i \in At } \cup { Put(i, x) : i \in At, x \in New } \cup UNION { { Put(i, <<y>>) : y \in Bits1(B0[i]) } : i \in At } \cup { B0 \o x : x \in {<<0>>, <<255>>, <<32>>, B0} }
GMoves(s, n) == IF n > 1 THEN {} ELSE { Rec("feed", [dec |-> S0.dec, arg |-> S0.arg, b |-> Hx(b)]) : b \in Tries }
Fed == IF hist = << >> THEN << >> ELSE Un(hist[1].a.b)
\* what the specification itself encodes is a value, and short of its last byte an error
Whole == (hist # << >> /\ Fed = B0) => hist[1].r.out = (CASE S0.dec = "sch" -> "any" [] S0.dec = "lock" /\ B0[1] = 81 -> "error" [] OTHER -> "value")
SelfEnding == (hist # << >> /\ S0.dec \notin {"script", "num", "path", "valid", "lock"} /\ Len(Fed) = Len(B0) - 1 /\ Fed = SubSeq(B0, 1, Len(Fed))) => hist[1].r.out = "error"
=============================================================================
