------------------------------ MODULE MC_Ecdsa ------------------------------
(* Sign with edge keys and hashes, then verify the signature and every kind   *)
(* of alteration of it; strict DER over all small encodings.                  *)
EXTENDS EcdsaSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Keys == { One, Big(2), BSub(CN, One), BShr(CN, 1), BigOfBytes(Sha256(<<1>>)) } \cup (IF Deep THEN { BigOfBytes(Sha256(<<k>>)) : k \in 2..5 } ELSE {})
Hashes == { Rep(0, 32), Rep(255, 32), X32(CN), X32(BSub(CN, One)), Sha256(<<7>>), Sha256(<<8>>) } \cup (IF Deep THEN { <<1>>, Rep(9, 31), Rep(200, 33), Sha512(<<1>>) } ELSE {})
GInits == { [d |-> Hx(X32(k))] : k \in Keys }
Dec(v) == BigToDec(v)
Alter(s, h) ==
  LET d == DerParse(s.sig)
      b == s.sig
      n == Len(b)
      v(hh, g) == Rec("verify", [pub |-> "", h |-> Hx(hh), sig |-> Hx(g)])
      w(r1, s1) == Rec("rawverify", [pub |-> "", h |-> Hx(h), r |-> Dec(r1), s |-> Dec(s1)])
      flips == { [b EXCEPT ![k] = IXor(b[k], x)] : k \in (IF Deep THEN 1..n ELSE {1, 2, 3, 4, 5, n \div 2, n}), x \in {1, 128} }
  IN { v(h, b), v(Tail(h \o <<0>>), b), v(Sha256(<<99>>), b), v(h, b \o <<0>>), v(h, SubSeq(b, 1, n - 1)), v(h, << >>), v(h, Der(d.r, BSub(CN, d.s))),
       v(h, <<48, n - 1>> \o SubSeq(b, 3, n) \o <<0>>), v(h, <<48, 129, n - 2>> \o SubSeq(b, 3, n)), v(h, <<49>> \o Tail(b)),
       v(h, Der(BAdd(d.r, CN), d.s)), v(h, Der(BSub(d.r, CN), d.s)), v(h, Der(Zero, d.s)), v(h, Der(d.r, Zero)), v(h, Der(d.s, d.r)), v(h, Der(BSub(Zero, d.r), d.s)),
       v(h, Der(CN, d.s)), v(h, Der(d.r, CN)), v(h, Der(d.r, BAdd(d.s, CN))), v(h, <<48, 3, 2, 1, 1>>), v(h, <<48, 0>>) }
     \cup { v(h, g) : g \in flips }
     \cup { w(d.r, d.s), w(d.r, BSub(CN, d.s)), w(BAdd(d.r, CN), d.s), w(d.r, BAdd(d.s, CN)), w(BSub(d.r, CN), d.s), w(Zero, Zero), w(Zero, d.s), w(d.r, Zero), w(d.s, d.r), w(BSub(CN, d.r), d.s), w(d.r, BSub(Zero, d.s)), w(CP, d.s) }
     \cup { Rec("verify", [pub |-> Hx(Enc33(p)), h |-> Hx(h), sig |-> Hx(b)]) : p \in { PNeg(PBase(s.d)), CG, PBase(Big(3)), PDbl(PBase(s.d)) } }
     \cup { Rec("des", [pub |-> "", sig |-> Hx(b)]), Rec("nonce", [pub |-> "", h |-> Hx(h)]), Rec("rawsign", [pub |-> "", h |-> Hx(h)]), Rec("sign", [pub |-> "", h |-> Hx(h)]) }
DerVals == { Zero, One, Big(127), Big(128), Big(255), Big(256), BSub(Zero, One), BSub(Zero, Big(128)), BSub(Zero, Big(129)), BSub(Zero, Big(256)), BShl(One, 255), BSub(BShl(One, 256), One), BShl(One, 600), BShl(One, 1100) }
GMoves(s, n) ==
  IF n = 1 THEN { Rec("sign", [pub |-> "", h |-> Hx(h)]) : h \in Hashes }
                \cup (IF ini.d = Hx(X32(One)) THEN { Rec("ser", [pub |-> "", r |-> Dec(x), s |-> Dec(y)]) : x \in DerVals, y \in DerVals }
                                          \cup { Rec("des", [pub |-> "", sig |-> Hx(Der(x, y))]) : x \in DerVals, y \in DerVals } ELSE {})
  ELSE IF s.sig = << >> THEN {} ELSE Alter(s, Un(hist[1].a.h))
\* signing is sound and canonical; verification accepts exactly the equation
Sound == Len(hist) = 1 /\ hist[1].op = "sign" =>
           /\ EcdsaVerify(PBase(st.d), Un(hist[1].a.h), st.sig)
           /\ Len(st.sig) <= 71
           /\ LET d == DerParse(st.sig) IN BLeq(d.s, BShr(CN, 1))
\* only the signature itself, its high-S twin or an equal hash verifies under the key
OnlyThis == Len(hist) = 2 /\ hist[2].op = "verify" /\ hist[2].r.ok =>
              /\ DerParse(Un(hist[2].a.sig)).r = DerParse(st.sig).r
              /\ LowS(DerParse(Un(hist[2].a.sig)).s) = DerParse(st.sig).s
DerBack == Len(hist) = 1 /\ hist[1].op = "ser" => LET d == DerParse(Un(hist[1].r.sig)) IN d.ok /\ d.r = BigDec(hist[1].a.r) /\ d.s = BigDec(hist[1].a.s)
\* RFC 6979 / known vectors
ASSUME EcdsaSign(One, Sha256(StrToBytes("Satoshi Nakamoto"))) =
  [r |-> BigHex("934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8"), s |-> BigHex("2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5")]
ASSUME EcdsaSign(BSub(CN, One), Sha256(StrToBytes("Satoshi Nakamoto"))) =
  [r |-> BigHex("fd567d121db66e382991534ada77a6bd3106f0a1098c231e47993447cd6af2d0"), s |-> BigHex("6b39cd0eb1bc8603e159ef5c20a5c8ad685a45b06ce9bebed3f153d10d93bed5")]
=============================================================================
