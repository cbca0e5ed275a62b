------------------------------- MODULE MC_SMpc -------------------------------
(* Every order in which two or three parties can go through the phases, then  *)
(* every alteration of what the joint signature is made of.                   *)
EXTENDS SMpc, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
K(n) == X32(BMod(BigOfBytes(Sha256(<<n>>)), CN))
Msg(n) == Sha256(<<n, 0>>)
Init1(ds, m, o) == [ds |-> [i \in 1..Len(ds) |-> Hx(ds[i])], m |-> Hx(m), order |-> o]
\* parity of each nonce point and of their sum
Par(ds, m) == LET R == [i \in 1..2 |-> PBase(SK0(BigOfBytes(ds[i]), m))]
              IN << Jacobi1(R[1][2]), Jacobi1(R[2][2]), Jacobi1(PAdd(R[1], R[2])[2]) >>
ByParity == { Msg(n) : n \in {1, 2, 3, 4, 9, 16, 20, 25} }
ASSUME Cardinality({ Par(<<K(1), K(2)>>, m) : m \in ByParity }) = 8
GInits == { Init1(<<K(1), K(2)>>, m, 9) : m \in ByParity }
          \cup { Init1(<<K(1), K(2)>>, Msg(1), o) : o \in IF Deep THEN 0..3 ELSE {0, 3} }
          \cup { Init1(ds, m, 9) : ds \in { <<X32(One), X32(One)>>, <<X32(One), X32(BSub(CN, Big(2)))>>, <<X32(BSub(CN, One)), X32(BSub(CN, One))>>, <<K(1), K(1)>>, <<K(3), X32(Big(2))>> },
                                    m \in IF Deep THEN { << >>, Rep(0, 32), Rep(3, 65), Msg(1), Msg(2) } ELSE { << >>, Msg(2) } }
          \cup { Init1(<<K(1), K(2), K(3)>>, Msg(n), 8) : n \in 1..(IF Deep THEN 8 ELSE 2) }
          \cup (IF Deep THEN { Init1(<<K(n), K(n + 1), K(n + 2)>>, Msg(n), 9) : n \in 1..20 } \cup { Init1(<<K(n), K(n + 1), K(n), K(7)>>, Msg(n), 9) : n \in 1..20 }
                             \cup { Init1(<<K(n), K(n + 1)>>, Msg(n), o) : n \in 3..20, o \in 0..3 } ELSE {})
N == Len(st.ds)
RECURSIVE PSum(_, _, _)
PSum(f, n, skip) == IF n = 0 THEN Inf ELSE PAdd(IF n = skip THEN Inf ELSE f[n], PSum(f, n - 1, skip))
Pubs(s) == [i \in 1..Len(s.ds) |-> PBase(s.ds[i])]
Whole(s) == PSum(Pubs(s), Len(s.ds), 0)
ROf(s) == PSum(s.R, Len(s.ds), 0)
Ht(p) == Hx(Enc65(p))
P1(s, p) == Rec("p1", [p |-> p, pub |-> Ht(PSum(Pubs(s), Len(s.ds), p))])
P2(s, p) == Rec("p2", [p |-> p, hash |-> ini.m])
P3(s, p) == Rec("p3", [p |-> p, r |-> Ht(PSum(s.R, Len(s.ds), p))])
P4(s, p) == Rec("p4", [p |-> p, pub |-> Ht(Whole(s)), r |-> Ht(ROf(s))])
All(s, o) == \A p \in 1..Len(s.ds) : o \in s.done[p]
Late(p) == (ini.order = 1 /\ p = 1) \/ (ini.order = 2 /\ p = 2) \/ ini.order = 3
Next1(s, p) ==
  LET d == s.done[p] IN
  IF ~Late(p) /\ "p1" \notin d THEN {P1(s, p)}
  ELSE IF "p2" \notin d THEN {P2(s, p)}
  ELSE IF "p3" \notin d THEN (IF All(s, "p2") THEN {P3(s, p)} ELSE {})
  ELSE IF "p4" \notin d THEN {P4(s, p)}
  ELSE IF "p1" \notin d THEN {P1(s, p)}
  ELSE {}
\* 9: one phase of everybody after the other; 8: the same from the last party on, with p2 twice
Lock(s) == LET o == IF ~All(s, "p1") THEN "p1" ELSE IF ~All(s, "p2") THEN "p2" ELSE IF ~All(s, "p3") THEN "p3" ELSE "p4"
               left == { p \in 1..Len(s.ds) : o \notin s.done[p] }
               p == CHOOSE x \in left : \A y \in left : (ini.order = 9 /\ x <= y) \/ (ini.order = 8 /\ y <= x)
           IN IF left = {} THEN {} ELSE Next1(s, p)
Nph == 4 * N
Sof(s, p) == Partial(s.ds[p], s.k[p], Whole(s), ROf(s), s.m[p])
Sigs(s) == [p \in 1..Len(s.ds) |-> Hx(X32(Sof(s, p)))]
P5(p, r, sigs) == Rec("p5", [p |-> p, r |-> r, sigs |-> sigs])
Alone(s, p) == Partial(s.ds[p], s.k[p], PBase(s.ds[p]), ROf(s), s.m[p])     \* under its own key only
OwnR(s, p) == Partial(s.ds[p], s.k[p], Whole(s), s.R[p], s.m[p])
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Good(s) == { Sigs(s), Rev(Sigs(s)) }
Sets(s) == Good(s)
     \cup { [Sigs(s) EXCEPT ![1] = Hx(X32(x))] : x \in { BAddMod(Sof(s, 1), One, CN), BSub(CN, Sof(s, 1)), Zero, Alone(s, 1) } \cup (IF OwnR(s, 1) = Sof(s, 1) THEN {} ELSE { OwnR(s, 1) }) }
     \cup { Tail(Sigs(s)), Append(Sigs(s), Sigs(s)[1]), << >>, [Sigs(s) EXCEPT ![N] = Sigs(s)[1]], Append(Sigs(s), Hx(<<1>>)) }
Checks(s, sig) == { Rec("verify", [p |-> 1, pub |-> q, hash |-> h, sig |-> sig]) : q \in { Ht(Whole(s)), Ht(PBase(s.ds[1])) }, h \in { ini.m, Hx(Msg(99)) } }
GMoves(s, n) ==
  IF n <= Nph THEN (IF ini.order >= 8 THEN Lock(s) ELSE UNION { Next1(s, p) : p \in 1..N })
  ELSE IF ini.order < 8 THEN (IF n = Nph + 1 THEN { P5(1, Ht(ROf(s)), Sigs(s)) } ELSE {})
  ELSE IF n = Nph + 1 THEN { P5(p, Ht(ROf(s)), g) : p \in {1}, g \in Sets(s) } \cup { P5(N, r, Sigs(s)) : r \in { Ht(ROf(s)), Ht(s.R[1]), Ht(PDbl(ROf(s))) } }
  ELSE IF n = Nph + 2 THEN Checks(s, hist[Nph + 1].r.sig)
  ELSE IF n = Nph + 3 THEN { Rec("close", [p |-> 1]) }
  ELSE {}

\* ---- what must come of it
Agree == Len(hist) >= Nph =>
         /\ SchnorrVerify(Whole(st), Un(ini.m), X32(ROf(st)[1]) \o X32(BMod(SumOf(Sigs(st), N), CN)))
         /\ \A i \in 1..Nph : hist[i].op = "p1" => hist[i].r.pub = Hx(Enc33(Whole(st)))
         /\ \A i \in 1..Nph : hist[i].op = "p3" => hist[i].r.r = Ht(ROf(st))
Valid == Len(hist) >= Nph + 2 =>
         LET c == hist[Nph + 1].a
             v == hist[Nph + 2] IN
         v.r.ok <=> /\ v.a.hash = ini.m /\ v.a.pub = Ht(Whole(st))
                    /\ BMod(SumOf(c.sigs, Len(c.sigs)), CN) = BMod(SumOf(Sigs(st), N), CN) /\ c.r = Ht(ROf(st))
=============================================================================
