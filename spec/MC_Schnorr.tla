----------------------------- MODULE MC_Schnorr -----------------------------
(* Sign with edge keys and messages, then verify the signature and every kind *)
(* of alteration of it.                                                       *)
EXTENDS SchnorrSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Keys == { One, Big(2), BSub(CN, One), BShr(CN, 1), BigOfBytes(Sha256(<<1>>)), BigOfBytes(Sha256(<<2>>)) } \cup (IF Deep THEN { BigOfBytes(Sha256(<<k>>)) : k \in 3..8 } ELSE {})
Msgs == { << >>, <<0>>, Rep(0, 32), Rep(255, 32), Sha256(<<7>>), Sha256(<<8>>), Rep(3, 65) } \cup (IF Deep THEN { Sha256(<<k>>) : k \in 20..30 } ELSE {})
GInits == { [d |-> Hx(X32(k))] : k \in Keys }
Dec(v) == BigToDec(v)
Fits(v) == BLeq(Zero, v) /\ BLt(v, BShl(One, 256))
\* the last signature is a function of the key and what was signed first
Alter(d, m) ==
  LET b == SchnorrSign(d, m)
      r == BigOfBytes(SubSeq(b, 1, 32))
      z == BigOfBytes(SubSeq(b, 33, 64))
      v(mm, g) == Rec("verify", [pub |-> "", m |-> Hx(mm), sig |-> Hx(g)])
      w(r1, s1) == Rec("rawverify", [pub |-> "", m |-> Hx(m), r |-> Dec(r1), s |-> Dec(s1)])
      des(g) == Rec("des", [pub |-> "", sig |-> Hx(g)])
      flips == { [b EXCEPT ![k] = IXor(b[k], x)] : k \in (IF Deep THEN 1..64 ELSE {1, 2, 16, 32, 33, 34, 50, 64}), x \in {1, 128} }
      \* the nonce point's other root, the other key of the same x, s = 0, e = 0
      forged == { X32(r) \o X32(BSub(CN, z)), X32(z) \o X32(r), X32(r) \o Rep(0, 32), Rep(0, 32) \o X32(z), Rep(0, 64), Rep(255, 64), X32(CP) \o X32(z), X32(r) \o X32(CN),
                  X32(PBase(SK0(d, m))[1]) \o X32(BAddMod(SK0(d, m), BMul(SE(r, PBase(d), m), d), CN)),
                  X32(PBase(SK0(d, m))[1]) \o X32(BAddMod(BSub(CN, SK0(d, m)), BMul(SE(r, PBase(d), m), d), CN)) }
  IN { v(m, b), v(Sha256(<<99>>), b), v(m \o <<0>>, b), v(<<0>> \o m, b), v(m, b \o <<0>>), v(m, SubSeq(b, 1, 63)), v(m, << >>), v(m, Rep(0, 64) \o b) }
     \cup { v(m, g) : g \in flips \cup forged }
     \cup (IF Fits(BAdd(z, CN)) THEN { v(m, X32(r) \o X32(BAdd(z, CN))) } ELSE {})
     \cup { w(r, z), w(BAdd(r, CP), z), w(r, BAdd(z, CN)), w(r, BSub(z, CN)), w(BSub(Zero, r), z), w(r, BSub(Zero, z)), w(r, BSub(CN, z)), w(BSub(r, CP), z) }
     \cup { Rec("verify", [pub |-> Hx(Enc33(p)), m |-> Hx(m), sig |-> Hx(b)]) : p \in { PNeg(PBase(d)), CG, PBase(Big(3)) } }
     \cup { des(g) : g \in {b, SubSeq(b, 1, 63), b \o <<0>>, << >>, Rep(0, 64), Rep(255, 64)} }
     \cup { Rec("parts", [pub |-> "", m |-> Hx(m)]), Rec("sign", [pub |-> "", m |-> Hx(m)]) }
GMoves(s, n) == IF n = 1 THEN { Rec("sign", [pub |-> "", m |-> Hx(m)]) : m \in Msgs } ELSE Alter(s.d, Un(hist[1].a.m))
Signed == Un(hist[1].r.sig)
Sound == Len(hist) = 1 => SchnorrVerify(PBase(st.d), Un(hist[1].a.m), Signed) /\ Len(Signed) = 64
\* nothing but the signature itself (or a verifier's own encoding of it) verifies
OnlyThis == Len(hist) = 2 => CASE hist[2].op = "verify" -> hist[2].r.ok <=> (hist[2].a.sig = hist[1].r.sig /\ hist[2].a.pub \in {"", Hx(Enc33(PBase(st.d)))} /\ hist[2].a.m = hist[1].a.m)
                               [] hist[2].op = "rawverify" -> hist[2].r.ok <=> (X32(BMod(BigDec(hist[2].a.r), BShl(One, 256))) \o X32(BMod(BigDec(hist[2].a.s), BShl(One, 256))) = Signed
                                                                                 /\ Fits(BigDec(hist[2].a.r)) /\ Fits(BigDec(hist[2].a.s)))
                               [] hist[2].op = "sign" -> hist[2].r = hist[1].r
                               [] OTHER -> TRUE
\* vectors of the bip-schnorr draft
ASSUME SchnorrSign(One, Rep(0, 32)) = HexToBytes("787a848e71043d280c50470e8e1532b2dd5d20ee912a45dbdd2bd1dfbf187ef67031a98831859dc34dffeedda86831842ccd0079e1f92af177f7f22cc1dced05")
ASSUME SchnorrSign(BigHex("b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cfef"), HexToBytes("243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c89"))
       = HexToBytes("2a298dacae57395a15d0795ddbfd1dcb564da82b0f269bc70a74f8220429ba1d1e51a22ccec35599b8f266912281f8365ffc2d035a230434a1a64dc59f7013fd")
ASSUME SchnorrSign(BigHex("c90fdaa22168c234c4c6628b80dc1cd129024e088a67cc74020bbea63b14e5c7"), HexToBytes("5e2d58d8b3bcdf1abadec7829054f90dda9805aab56c77333024b9d0a508b75c"))
       = HexToBytes("00da9b08172a9b6f0466a2defd817f2d7ab437e0d253cb5395a963866b3574be00880371d01766935b92d2ab4cd5c8a2a5837ec57fed7660773a05f0de142380")
\* verification vector whose signer is unknown
ASSUME SchnorrVerify(DecPub(HexToBytes("03defdea4cdb677750a420fee807eacf21eb9898ae79b9768766e4faa04a2d4a34")).p, HexToBytes("4df3c3f68fcc83b27e9d42c90431a72499f17875c81a599b566c9889b9696703"),
                     HexToBytes("00000000000000000000003b78ce563f89a0ed9414f5aa28ad0d96d6795f9c6302a8dc32e64e86a333f20ef56eac9ba30b7246d6d25e22adb8c6be1aeb08d49d"))
=============================================================================
