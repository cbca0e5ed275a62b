---------------------------- MODULE SchnorrSpec ----------------------------
EXTENDS Schnorr, StepLib
SInit(init) == [d |-> BigOfBytes(Un(init.d))]
SStep(s, e) ==
  LET a == e.a
      q == IF a.pub = "" THEN PBase(s.d) ELSE DecPub(Un(a.pub)).p
  IN CASE e.op = "key" -> Into([s EXCEPT !.d = BigOfBytes(Un(a.d))], e, [ok |-> TRUE])
       [] e.op = "sign" -> Same(s, e, [ok |-> TRUE, sig |-> Hx(SchnorrSign(s.d, Un(a.m))), same |-> TRUE])
       [] e.op = "verify" -> Same(s, e, [ok |-> SchnorrVerify(q, Un(a.m), Un(a.sig)), same |-> TRUE])
       [] e.op = "rawverify" -> Same(s, e, [ok |-> SchnorrOk(q, Un(a.m), BigDec(a.r), BigDec(a.s)), same |-> TRUE])
       [] e.op = "des" -> LET b == Un(a.sig) IN
                          Same(s, e, IF Len(b) = 64 THEN [ok |-> TRUE, r |-> BigToDec(BigOfBytes(SubSeq(b, 1, 32))), s |-> BigToDec(BigOfBytes(SubSeq(b, 33, 64))), again |-> a.sig] ELSE [ok |-> FALSE])
       [] e.op = "parts" ->   \* the helpers the multi-party protocol shares
            LET k0 == SK0(s.d, Un(a.m))
                R == PBase(k0)
            IN Same(s, e, [k0 |-> BigToDec(k0), k |-> BigToDec(SK(R, k0)), e |-> BigToDec(SE(R[1], PBase(s.d), Un(a.m))), same |-> TRUE])
=============================================================================
