----------------------------- MODULE EcdsaSpec -----------------------------
(* Signing and verifying with key objects that are used again and again.      *)
EXTENDS Ecdsa, StepLib
\* state: the current key and the last signature made
EInit(init) == [d |-> BigOfBytes(Un(init.d)), sig |-> << >>]
EStep(s, e) ==
  LET a == e.a
      \* the point a verifier uses: the current key's, or one given
      q == IF a.pub = "" THEN PBase(s.d) ELSE DecPub(Un(a.pub)).p
  IN CASE e.op = "key" -> Into([s EXCEPT !.d = BigOfBytes(Un(a.d))], e, [ok |-> TRUE])
       [] e.op = "sign" -> LET g == EcdsaSign(s.d, Un(a.h)) b == Der(g.r, g.s) IN
                           Into([s EXCEPT !.sig = b], e, [ok |-> TRUE, sig |-> Hx(b), same |-> TRUE])
       [] e.op = "rawsign" -> LET g == EcdsaSign(s.d, Un(a.h)) IN Same(s, e, [ok |-> TRUE, r |-> BigToDec(g.r), s |-> BigToDec(g.s)])
       [] e.op = "nonce" -> Same(s, e, [k |-> BigToDec(Nonce(s.d, Un(a.h)))])
       [] e.op = "verify" -> Same(s, e, [ok |-> EcdsaVerify(q, Un(a.h), Un(a.sig)), same |-> TRUE])
       [] e.op = "rawverify" -> Same(s, e, [ok |-> EcdsaOk(q, Un(a.h), BigDec(a.r), BigDec(a.s)), same |-> TRUE])
       [] e.op = "ser" -> Same(s, e, [ok |-> TRUE, sig |-> Hx(Der(BigDec(a.r), BigDec(a.s)))])
       [] e.op = "des" -> LET d == DerParse(Un(a.sig)) IN
                          Same(s, e, IF d.ok THEN [ok |-> TRUE, r |-> BigToDec(d.r), s |-> BigToDec(d.s), same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE])
=============================================================================
