-------------------------------- MODULE SMpc --------------------------------
(* Multi-party Schnorr: keys and nonces add up.  Any number of parties; each  *)
(* is given the sum of what the others sent.                                  *)
EXTENDS Schnorr, StepLib
SMInit(init) == [ds |-> [i \in 1..Len(init.ds) |-> BigOfBytes(Un(init.ds[i]))],
                 k |-> [i \in 1..Len(init.ds) |-> Zero], R |-> [i \in 1..Len(init.ds) |-> Inf], m |-> [i \in 1..Len(init.ds) |-> << >>],
                 done |-> [i \in 1..Len(init.ds) |-> {}]]
SPt(x) == DecPub(Un(x)).p
Partial(d, k0, q, R, m) == BAddMod(SK(R, k0), BMul(SE(R[1], q, m), d), CN)
RECURSIVE SumOf(_, _)
SumOf(q, n) == IF n = 0 THEN Zero ELSE BAdd(BigOfBytes(Un(q[n])), SumOf(q, n - 1))
SMStep(s, e) ==
  LET a == e.a
      p == a.p
      did(s1) == [s1 EXCEPT !.done[p] = @ \cup {e.op}]
  IN CASE e.op = "p1" -> Into(did(s), e, [pub |-> Hx(Enc33(PAdd(PBase(s.ds[p]), SPt(a.pub)))), same |-> TRUE])
       [] e.op = "p2" -> LET m == Un(a.hash)
                             k == SK0(s.ds[p], m)
                             R == PBase(k)
                         IN Into([did(s) EXCEPT !.k[p] = k, !.R[p] = R, !.m[p] = m], e, [r |-> Hx(Enc65(R)), same |-> TRUE])
       [] e.op = "p3" -> Into(did(s), e, [r |-> Hx(Enc65(PAdd(s.R[p], SPt(a.r)))), same |-> TRUE])
       [] e.op = "p4" -> Into(did(s), e, [ok |-> TRUE, s |-> Hx(X32(Partial(s.ds[p], s.k[p], SPt(a.pub), SPt(a.r), s.m[p]))), same |-> TRUE])
       [] e.op = "p5" -> Into(did(s), e, [ok |-> TRUE, sig |-> Hx(X32(SPt(a.r)[1]) \o X32(BMod(SumOf(a.sigs, Len(a.sigs)), CN))), same |-> TRUE])
       [] e.op = "verify" -> Same(s, e, [ok |-> SchnorrVerify(SPt(a.pub), Un(a.hash), Un(a.sig))])
       [] e.op = "close" -> Same(s, e, [same |-> TRUE])
=============================================================================
