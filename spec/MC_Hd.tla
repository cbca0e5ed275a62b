-------------------------------- MODULE MC_Hd --------------------------------
(* The tree below some master keys: private and public derivation, texts and  *)
(* their corruption, paths.                                                   *)
EXTENDS Hd, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Seed1 == "000102030405060708090a0b0c0d0e0f"
Seed2 == "fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542"
\* leading zeros in the keys: BIP32 vectors 3 and 4
Seed3 == "4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be"
Seed4 == "3ddd5602285899a946114506157c7997e5444528f3003f6134712147db19b678"
Seeds == { Seed1, Seed2, Seed3, Seed4 }
GInits == { [seed |-> x, kind |-> k] : x \in Seeds, k \in {"tree", "path"} } \cup { [seed |-> x, kind |-> "text"] : x \in {Seed1, Seed4} }
          \cup { [seed |-> Seed1, kind |-> "deep"] }
Idx == { "0", "1", "2147483647", "2147483648", "4294967295" } \cup (IF Deep THEN { "2", "255", "256", "65536", "2147483649", "1000000000" } ELSE {})
T(s) == Hx(StrToBytes(s))
Parse(b) == Rec("parse", [s |-> Hx(b)])
WithSum(b) == B58Encode(b \o Check4(b))
Zfill == Rep(0, 8)
\* texts made from the key k, whose version is its own
Mutants(k) ==
  LET b == Raw(k, Version("main", k.prv))
      t == B58Encode(b \o Check4(b))
      put(at, x) == [b EXCEPT ![at] = x]
      keyis(x) == SubSeq(b, 1, 45) \o x
      flips == { [t EXCEPT ![n] = IF t[n] = c THEN 49 ELSE c] : n \in (IF Deep THEN 1..Len(t) ELSE {1, 2, 5, 20, 60, 100, Len(t)}), c \in {50, 122, 48} }
      bodies == { put(5, 0), put(5, 255), put(6, 1), put(13, 1), put(14, IXor(b[14], 1)), put(78, IXor(b[78], 1)),
                  keyis(Rep(0, 33)), keyis(<<0>> \o X32(CN)), keyis(<<0>> \o X32(BSub(CN, One))), keyis(<<0>> \o X32(One)), keyis(<<0>> \o X32(BAdd(CN, One))), keyis(<<0>> \o Rep(255, 32)),
                  keyis(Rep(1, 33)), keyis(<<1>> \o X32(k.q[1])), keyis(<<2>> \o X32(k.q[1])), keyis(<<3>> \o X32(k.q[1])), keyis(<<4>> \o X32(k.q[1])), keyis(<<6>> \o X32(k.q[1])), keyis(<<2>> \o X32(CP)),
                  keyis(<<2>> \o X32(Big(5))), keyis(<<2>> \o X32(One)) }
                \cup { v.t \o SubSeq(c, 5, 78) : v \in Versions, c \in { b, [b EXCEPT ![5] = 0], [SubSeq(b, 1, 5) \o Zfill \o SubSeq(b, 14, 78) EXCEPT ![5] = 0] } }
      sums == { B58Encode(b \o [Check4(b) EXCEPT ![n] = IXor(@, 1)]) : n \in 1..4 }
      sizes == { WithSum(SubSeq(b, 1, 77)), WithSum(b \o <<0>>), WithSum(Tail(b)), WithSum(<<0>> \o b), B58Encode(b), << >>, B58Encode(Rep(0, 82)), <<49>> \o t, t \o <<49>>, SubSeq(t, 1, Len(t) - 1), t \o <<32>>, Tail(t) }
  IN flips \cup { WithSum(x) : x \in bodies } \cup sums \cup sizes
Paths == { "", "m", "m/", "/", "m/0", "m/0/", "m//0", "m/0'", "m/2147483647'", "m/2147483648'", "m/2147483647", "m/2147483648", "m/4294967295", "m/4294967296", "m/4294967295'",
           "m/18446744073709551616", "m/-1", "m/+1", "m/ 1", "m/1 ", "m/1''", "m/'", "m/1h", "m/1H", "m/0x1", "m/1_0", "m/01", "m/000000000000000000001'", "M/0", "n/0", "0", "0/1", "m0", "mm/0", "/m/0", " m/0", "m/0/1", "m/44'/0'/0'/0/0",
           "m/0/1'/2", "m/1/m", "m/m/1", "m/1.0", "m/1e1", "m/44'/0'/0'/1/4294967296", "m/x/0", "m/0/x", "m/'0", "m/0\"" }
GMoves(s, n) ==
  CASE ini.kind = "tree" ->
         IF n = 1 THEN { Rec("child", [k |-> 1, i |-> i]) : i \in Idx }
         ELSE IF n = 2 THEN { Rec("neuter", [k |-> k]) : k \in {1, 2} }
         ELSE IF n = 3 THEN { Rec("child", [k |-> k, i |-> i]) : k \in {2, 3}, i \in Idx }
         ELSE IF n = 4 THEN { Rec("neuter", [k |-> Len(s.keys)]), Rec("path", [k |-> Len(s.keys), path |-> "m/1/2"]) }
         ELSE IF n = 5 THEN { Rec("show", [k |-> k]) : k \in {1} }
         ELSE IF n = 6 THEN { Parse(Text(s.keys[k], net)) : k \in {Len(s.keys)}, net \in {"main", "test"} }
         ELSE {}
    [] ini.kind = "path" ->
         IF n = 1 THEN { Rec("path", [k |-> 1, path |-> x]) : x \in Paths } \cup { Rec("neuter", [k |-> 1]) }
         ELSE IF n = 2 /\ hist[1].op = "neuter" THEN { Rec("path", [k |-> 2, path |-> x]) : x \in Paths }
         ELSE {}
    [] ini.kind = "text" ->
         IF n = 1 THEN { Rec("path", [k |-> 1, path |-> x]) : x \in {"m", "m/7'", "m/0/1"} }
         ELSE IF n = 2 THEN { Rec("neuter", [k |-> 2]), Rec("show", [k |-> 2]) }
         ELSE IF n = 3 THEN { Parse(x) : x \in Mutants(s.keys[Len(s.keys)]) }
         ELSE {}
    [] OTHER ->             \* as deep as it goes
         IF n <= 6 THEN { Rec("path", [k |-> Len(s.keys), path |-> "m/0/1/0/2/0/3/0/4/0/5/0/6/0/7/0/8/0/9/0/1/0/2/0/3/0/4/0/5/0/6/0/7/0/8/0/9/0/1/0/2/0"]) }
         ELSE IF n = 7 THEN { Rec("path", [k |-> Len(s.keys), path |-> "m/0/1/2"]), Rec("path", [k |-> Len(s.keys), path |-> "m/0/1/2/3/4/5/6/7/8"]), Rec("path", [k |-> Len(s.keys), path |-> "m/0/1/2/3/4/5/6/7/8/9"]) }
         ELSE IF n = 8 THEN { Rec("child", [k |-> Len(s.keys), i |-> "5"]), Rec("neuter", [k |-> Len(s.keys)]) }
         ELSE IF n = 9 THEN { Rec("child", [k |-> Len(s.keys), i |-> i]) : i \in {"5", "2147483648"} } \cup { Parse(Text(s.keys[Len(s.keys)], "main")) }
         ELSE {}

\* ---- what must come of it
\* deriving commutes with neutering
Commutes == Len(hist) = 4 /\ ini.kind = "tree" =>
  \A i \in {"0", "7"} : LET k == st.keys[2] IN k.prv =>
     LET c == Child(k, BigDec(i)) d == Child(Neuter(k), BigDec(i)) IN c.ok /\ d.ok /\ Neuter(c.k) = d.k
PublicNoHard == \A n \in 1..Len(hist) : hist[n].op = "child" /\ hist[n].r.ok /\ hist[n].r.prv = "" => BLt(BigDec(hist[n].a.i), Hard)
RoundTrip == ini.kind = "tree" /\ Len(hist) = 6 => hist[6].r.ok /\ st.keys[Len(st.keys)] = st.keys[Len(st.keys) - 1]
\* a text that is not exactly that of the key it yields, for one of the networks, is refused
Exact == ini.kind = "text" /\ Len(hist) = 3 => (hist[3].r.ok <=> \E net \in {"main", "test"} : hist[3].r.ok /\ Hx(StrToBytes(IF net = "main" THEN hist[3].r.main ELSE hist[3].r.test)) = hist[3].a.s)
Length == \A n \in 1..Len(hist) : hist[n].r.ok => Len(StrToBytes(hist[n].r.main)) = 111
\* BIP32 test vectors
V(seed, path) == Show(ByPath(Master(Un(seed)), path).k).main
VP(seed, path) == Show(Neuter(ByPath(Master(Un(seed)), path).k)).main
ASSUME V(Seed1, "m") = "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi"
ASSUME V(Seed1, "m/0'/1/2'/2/1000000000") = "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76"
ASSUME VP(Seed1, "m/0'/1/2'/2/1000000000") = "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy"
ASSUME V(Seed2, "m/0/2147483647'/1/2147483646'/2") = "xprvA2nrNbFZABcdryreWet9Ea4LvTJcGsqrMzxHx98MMrotbir7yrKCEXw7nadnHM8Dq38EGfSh6dqA9QWTyefMLEcBYJUuekgW4BYPJcr9E7j"
ASSUME V(Seed3, "m/0'") = "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L"
ASSUME V(Seed4, "m/0'/1'") = "xprv9xJocDuwtYCMNAo3Zw76WENQeAS6WGXQ55RCy7tDJ8oALr4FWkuVoHJeHVAcAqiZLE7Je3vZJHxspZdFHfnBEjHqU5hG1Jaj32dVoS6XLT1"
=============================================================================
