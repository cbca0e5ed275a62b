------------------------------ MODULE KeysSpec ------------------------------
(* Key objects and points kept in registers: what one operation makes, later  *)
(* ones use, and nothing but the destination ever changes.                    *)
EXTENDS Secp256k1, StepLib
NRegs == 4
\* prv: scalars; pub: points
KInit(init) == [prv |-> [k \in 1..NRegs |-> One], pub |-> [k \in 1..NRegs |-> CG]]
ShowPub(p) == IF p = Inf THEN [x |-> Hx(Rep(0, 32)), y |-> Hx(Rep(0, 32))]
              ELSE [x |-> Hx(X32(p[1])), y |-> Hx(X32(p[2])), c |-> Hx(Enc33(p)), s |-> Hx(Enc33(p)), u |-> Hx(Enc65(p)), h |-> Hx(EncHyb(p)), id |-> Hx(Hash160(Enc33(p)))]
ShowPrv(d) == [d |-> Hx(X32(d)), pub |-> ShowPub(PBase(d))]
KStep(s, e) ==
  LET a == e.a
      toPub(p) == Into([s EXCEPT !.pub[a.i] = p], e, ShowPub(p))
      toPrv(d) == Into([s EXCEPT !.prv[a.i] = d], e, ShowPrv(d))
  IN CASE e.op = "prv" -> toPrv(BigOfBytes(Un(a.k)))
       [] e.op = "pub" -> LET r == DecPub(Un(a.b)) IN
                          IF r.ok THEN Into([s EXCEPT !.pub[a.i] = r.p], e, [ok |-> TRUE, k |-> ShowPub(r.p), same |-> TRUE]) ELSE Same(s, e, [ok |-> FALSE, same |-> TRUE])
       [] e.op = "unsec" -> LET r == IF Len(Un(a.b)) = 33 THEN DecPub(Un(a.b)) ELSE [ok |-> FALSE] IN
                            Same(s, e, IF r.ok THEN [ok |-> TRUE, k |-> ShowPub(r.p)] ELSE [ok |-> FALSE])
       [] e.op = "pubof" -> toPub(PBase(s.prv[a.j]))
       [] e.op = "prvadd" -> toPrv(BAddMod(s.prv[a.j], BigOfBytes(Un(a.n)), CN))
       [] e.op = "prvaddreg" -> toPrv(BAddMod(s.prv[a.j], s.prv[a.k], CN))
       [] e.op \in {"pubadd", "curveadd", "scalaradd"} -> toPub(PAdd(s.pub[a.j], s.pub[a.k]))
       [] e.op = "dbl" -> toPub(PDbl(s.pub[a.j]))
       [] e.op = "mul" -> toPub(PMul(BigOfBytes(Un(a.k)), s.pub[a.j]))
       [] e.op = "base" -> toPub(PBase(BigOfBytes(Un(a.k))))
       [] e.op = "on" -> Same(s, e, [on |-> OnCurve(<<BigOfBytes(Un(a.x)), BigOfBytes(Un(a.y))>>)])
       [] e.op = "params" -> Same(s, e, [p |-> Hx(X32(CP)), n |-> Hx(X32(CN)), b |-> 7, g |-> ShowPub(CG), bits |-> 256])
       [] e.op = "show" -> Same(s, e, [prv |-> [k \in 1..NRegs |-> ShowPrv(s.prv[k])] \o << >>, pub |-> [k \in 1..NRegs |-> ShowPub(s.pub[k])] \o << >>])
=============================================================================
