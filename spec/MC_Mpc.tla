------------------------------- MODULE MC_Mpc -------------------------------
(* Every order in which two parties can go through the phases, honest and     *)
(* with one thing going wrong on the way.                                     *)
EXTENDS Mpc, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
K(n) == X32(BMod(BigOfBytes(Sha256(<<n>>)), CN))
H1 == Sha256(<<200>>)
H2 == Sha256(<<201>>)
Faults == {"none", "hash2", "early4", "r3", "r4", "r5", "ct", "stale-enc", "repeat", "swap", "old-ct"}
Base == [kind |-> "ecdsa", d1 |-> Hx(K(1)), d2 |-> Hx(K(2)), t |-> "", hash |-> Hx(H1), order |-> 0, fault |-> "none"]
Adaptor(t) == [Base EXCEPT !.kind = "adaptor", !.t = Hx(t)]
Edge == { [Base EXCEPT !.d1 = Hx(x), !.d2 = Hx(y)] : x \in {X32(One), X32(BSub(CN, One))}, y \in {X32(One), X32(BSub(CN, Big(2))), K(3)} }
GInits == { [i EXCEPT !.order = o] : i \in {Base, Adaptor(K(9))}, o \in IF Deep THEN 0..3 ELSE {0, 1} }
          \cup { [i EXCEPT !.fault = f, !.order = 9] : i \in {Base, Adaptor(K(9))}, f \in Faults \ {"none"} }
          \cup { [i EXCEPT !.order = 9] : i \in Edge }
          \cup { [Adaptor(t) EXCEPT !.order = 9] : t \in {X32(One), X32(Big(2)), X32(BSub(CN, One)), K(8)} }
          \cup { [Base EXCEPT !.order = 9, !.hash = Hx(h)] : h \in {Rep(0, 32), Rep(255, 32), <<0>>, Rep(1, 20), Rep(9, 40)} }
\* phase ops a party can take next
Other(p) == 3 - p
Done(s, p, o) == o \in s.pt[p].done
LateP1(p) == (ini.order \in {1, 3} /\ p = 1) \/ (ini.order \in {2, 3} /\ p = 2)
P1(p) == Rec("p1", [p |-> p, pub |-> Hx(Enc33(PBase(st.pt[Other(p)].d)))])
P2(p, h) == Rec("p2", [p |-> p, hash |-> Hx(h)])
P3(p) == Rec("p3", [p |-> p, r |-> ShowPt(st.pt[Other(p)].R)])
P4(p) == Rec("p4", [p |-> p, enc |-> st.pt[Other(p)].enc, r |-> ShowPt(st.pt[p].sh)])
P5(p) == Rec("p5", [p |-> p, r |-> ShowPt(st.pt[p].sh), ct |-> st.pt[Other(p)].ct])
V(p) == Rec("verify", [p |-> p, hash |-> ini.hash])
H == Un(ini.hash)
Ready(s, p) == Done(s, p, "p1") \/ LateP1(p)
Enabled1(s, p) ==
  IF ~Ready(s, p) THEN {P1(p)}
  ELSE IF ~Done(s, p, "p2") THEN {P2(p, H)}
  ELSE IF ~Done(s, p, "p3") THEN (IF Done(s, Other(p), "p2") THEN {P3(p)} ELSE {})
  ELSE IF ~Done(s, p, "p4") THEN {P4(p)}
  ELSE IF ~Done(s, p, "p5") THEN (IF Done(s, Other(p), "p4") THEN {P5(p)} ELSE {})
  ELSE IF ~Done(s, p, "p1") THEN {P1(p)}
  ELSE {}
\* both first phases first: their order does not matter to anything
Go(s) == LET a == IF ~Ready(s, 1) THEN Enabled1(s, 1) ELSE IF ~Ready(s, 2) THEN Enabled1(s, 2) ELSE {} IN
         IF a # {} THEN a ELSE Enabled1(s, 1) \cup Enabled1(s, 2)
Tail6(s, n0, n) ==      \* after the phases
  IF ini.kind = "adaptor"
  THEN CASE n - n0 = 1 -> {Rec("p6b", [p |-> 2, r |-> ShowPt(s.pt[2].sh), add |-> 0])}
         [] n - n0 = 2 -> {V(2)}
         [] n - n0 = 3 -> {Rec("p6a", [p |-> 1, add |-> 0])}
         [] n - n0 = 4 -> {Rec("close", [p |-> 1])}
         [] OTHER -> {}
  ELSE CASE n - n0 = 1 -> {V(1)}
         [] n - n0 = 2 -> {V(2)}
         [] n - n0 = 3 -> {Rec("close", [p |-> 1])}
         [] OTHER -> {}
TwoR(p) == ShowPt(PDbl(st.pt[p].sh))
\* one scripted run per fault: names of moves, made out when their turn comes
Mv(s, x) ==
  LET p == x[2] IN
  CASE x[1] = "p1" -> P1(p) [] x[1] = "p2" -> P2(p, H) [] x[1] = "p3" -> P3(p) [] x[1] = "p4" -> P4(p) [] x[1] = "p5" -> P5(p)
    [] x[1] = "p2x" -> P2(p, H2)                                                      \* another hash
    [] x[1] = "p3x" -> Rec("p3", [p |-> p, r |-> ShowPt(PDbl(s.pt[Other(p)].R))])        \* another nonce point
    [] x[1] = "p4x" -> Rec("p4", [p |-> p, enc |-> s.pt[Other(p)].enc, r |-> TwoR(p)])
    [] x[1] = "p4o" -> Rec("p4", [p |-> p, enc |-> Other(p), r |-> ShowPt(s.pt[p].sh)])  \* the first encryption the other made
    [] x[1] = "p5x" -> Rec("p5", [p |-> p, r |-> TwoR(p), ct |-> s.pt[Other(p)].ct])
    [] x[1] = "mut" -> Rec("mut", [p |-> p, ct |-> s.pt[p].ct])
    [] x[1] = "p5l" -> Rec("p5", [p |-> p, r |-> ShowPt(s.pt[p].sh), ct |-> s.pt[Other(p)].ct + 2])     \* what became of it
    [] x[1] = "p5s" -> Rec("p5", [p |-> p, r |-> ShowPt(s.pt[p].sh), ct |-> s.pt[p].ct])               \* its own
Both(o) == << <<o, 1>>, <<o, 2>> >>
Start == Both("p1") \o Both("p2") \o Both("p3") \o Both("p4")
Script ==
  CASE ini.fault = "hash2" -> Both("p1") \o << <<"p2", 1>>, <<"p2x", 2>> >> \o Both("p3") \o Both("p4") \o Both("p5")
    [] ini.fault = "early4" -> << <<"p2", 1>>, <<"p2", 2>>, <<"p3", 1>>, <<"p4", 1>>, <<"p3", 2>>, <<"p5", 2>>, <<"p4", 2>>, <<"p5", 1>>, <<"p1", 2>>, <<"p1", 1>> >>
    [] ini.fault = "r3" -> Both("p1") \o Both("p2") \o << <<"p3x", 1>>, <<"p3", 2>> >> \o Both("p4") \o Both("p5")
    [] ini.fault = "r4" -> Both("p1") \o Both("p2") \o Both("p3") \o Both("p4x") \o Both("p5")
    [] ini.fault = "r5" -> Start \o Both("p5x")
    [] ini.fault = "ct" -> Start \o Both("mut") \o Both("p5l")
    [] ini.fault = "stale-enc" -> Both("p1") \o Both("p2") \o Both("p2") \o Both("p3") \o Both("p4o") \o Both("p5")
    [] ini.fault = "repeat" -> Both("p1") \o Both("p2x") \o Both("p3") \o Both("p4") \o Both("p2") \o Both("p3") \o Both("p3") \o Both("p4") \o Both("p4") \o Both("p5") \o Both("p5")
    [] ini.fault = "swap" -> Start \o Both("p5s")
    [] ini.fault = "old-ct" -> Both("p1") \o Both("p2x") \o Both("p3") \o Both("p4") \o Both("p2") \o Both("p3") \o Both("p5")
    [] OTHER -> Start \o Both("p5")
GMoves(s, n) ==
  IF ini.order = 9 THEN IF n <= Len(Script) THEN {Mv(s, Script[n])} ELSE Tail6(s, Len(Script), n)
  ELSE IF n <= 10 THEN Go(s) ELSE Tail6(s, 10, n)

\* ---- what must come of it
Ended == Len(hist) >= 10 /\ \A p \in {1, 2} : {"p1", "p2", "p3", "p4", "p5"} \subseteq st.pt[p].done
Honest == ini.fault \in {"none", "early4", "repeat"}
Finished == Len(hist) > 0 /\ hist[Len(hist)].op = "close"
Agree == Ended /\ Honest /\ (ini.fault = "repeat" => Finished)
         => /\ st.pt[1].joint = Joint(st) /\ st.pt[2].joint = Joint(st)
            /\ st.pt[1].sh = st.pt[2].sh
            /\ ini.kind = "ecdsa" => st.pt[1].sig = st.pt[2].sig /\ EcdsaVerify(Joint(st), H, st.pt[1].sig)
                                     /\ BLeq(DerParse(st.pt[1].sig).s, BShr(CN, 1))
Secret == Finished /\ ini.kind = "adaptor" /\ Honest
          => /\ hist[Len(hist) - 1].op = "p6a" /\ BigDec(hist[Len(hist) - 1].r.t) = st.pt[2].t
             /\ EcdsaVerify(Joint(st), H, st.pt[2].sig)
\* nothing that went wrong ends in a signature of what was to be signed
NoForgery == Finished /\ ~Honest /\ ~(ini.kind = "adaptor" /\ ini.fault = "r5")    \* the adaptor's halves do not depend on R
             => \A p \in {1, 2} : (ini.fault = "hash2" /\ p = 2) \/ ~EcdsaVerify(Joint(st), H, st.pt[p].sig)
=============================================================================
