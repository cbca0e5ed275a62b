------------------------------ MODULE MC_Keys ------------------------------
(* Histories of key and point operations over the edge scalars and encodings. *)
EXTENDS KeysSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Half == BShr(CN, 1)
Lambda == BigHex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")   \* cube root of 1: same y, other x
Scalars == { One, Big(2), Big(3), Half, BAdd(Half, One), BSub(CN, Big(2)), BSub(CN, One), Lambda, BSub(CN, Lambda), BShl(One, 128), BShl(One, 255), Big(255), Big(256) }
Some == IF Deep THEN Scalars ELSE { One, Big(2), Half, BSub(CN, One), Lambda }
Hs(k) == Hx(BigToMinBytes(k))
Pnts == { PBase(k) : k \in Scalars }
\* encodings, right and wrong
Bad(p) == { <<5>> \o Tail(Enc65(p)), <<2>> \o Tail(Enc65(p)), <<4>> \o Tail(Enc33(p)), <<0>> \o Tail(Enc33(p)), <<1>> \o Tail(Enc33(p)), <<5>> \o Tail(Enc33(p)), <<6>> \o Tail(Enc33(p)), <<7>> \o Tail(Enc33(p)),
            << IF EncHyb(p)[1] = 6 THEN 7 ELSE 6 >> \o Tail(EncHyb(p)), Tail(Enc33(p)), Enc33(p) \o <<0>>, Enc65(p) \o <<0>>, SubSeq(Enc65(p), 1, 64),
            [Enc65(p) EXCEPT ![65] = (Enc65(p)[65] + 1) % 256], [Enc65(p) EXCEPT ![2] = (Enc65(p)[2] + 1) % 256], <<255>> \o Tail(Enc33(p)), <<130>> \o Tail(Enc33(p)) }
FarX == { <<f>> \o X32(x) : f \in {2, 3}, x \in { Zero, One, Big(2), Big(3), Big(4), Big(5), Big(6), Big(8), BSub(CP, One), BSub(CP, Big(3)), CP, BAdd(CP, One), BSub(BShl(One, 256), One) } }
Plain == { <<4>> \o X32(x) \o X32(y) : x \in {Zero, One, CP, BAdd(CP, One)}, y \in {Zero, One, LiftX(One, FALSE).p[2], LiftX(One, TRUE).p[2], CP} }
Encs == UNION { {Enc33(p), Enc65(p), EncHyb(p)} \cup Bad(p) : p \in IF Deep THEN Pnts ELSE { PBase(k) : k \in {One, Big(2), Half} } } \cup FarX \cup Plain \cup { << >>, <<2>>, <<4>>, Rep(0, 33), Rep(0, 65), Rep(255, 33) }
GInits == { [x |-> 0] }
GMoves(s, n) ==
  CASE n = 1 -> { Rec("prv", [i |-> 1, k |-> Hs(k)]) : k \in Scalars } \cup { Rec("pub", [i |-> 1, b |-> Hx(b)]) : b \in Encs } \cup { Rec("unsec", [b |-> Hx(b)]) : b \in Encs \ {<< >>} }
    [] n = 2 /\ hist[1].op = "prv" -> { Rec("prvadd", [i |-> 2, j |-> 1, n |-> Hs(k)]) : k \in Scalars \cup {Zero, CN} }
                       \cup { Rec("base", [i |-> 2, k |-> Hs(k)]) : k \in Scalars }
    [] n = 2 /\ hist[1].op = "pub" -> { Rec("show", [x |-> 0]) }
    [] n = 3 /\ hist[2].op = "base" -> { Rec("pubof", [i |-> 1, j |-> 1]) }
    [] n = 3 /\ hist[2].op = "prvadd" -> { Rec("pubof", [i |-> 1, j |-> 2]) }
    [] n = 4 /\ hist[2].op = "base" -> { Rec("pubadd", [i |-> 3, j |-> 1, k |-> 2]), Rec("curveadd", [i |-> 1, j |-> 1, k |-> 2]), Rec("dbl", [i |-> 2, j |-> 1]), Rec("scalaradd", [i |-> 4, j |-> 2, k |-> 1]) }
                       \cup { Rec("mul", [i |-> 1, j |-> 2, k |-> Hs(k)]) : k \in Some \cup {Zero, CN} }
    [] n = 4 /\ hist[2].op = "prvadd" -> { Rec("mul", [i |-> 1, j |-> 1, k |-> Hs(k)]) : k \in {Half} }
    [] n = 5 -> { Rec("show", [x |-> 0]) }
    [] OTHER -> {}
\* the homomorphism on what was just computed
Homo == Len(hist) = 4 /\ hist[4].op = "pubadd" => st.pub[3] = PBase(BAddMod(BigOfBytes(Un(hist[1].a.k)), BigOfBytes(Un(hist[2].a.k)), CN))
Product == Len(hist) = 4 /\ hist[4].op = "mul" /\ hist[2].op = "base" => st.pub[1] = PBase(BMulMod(BigOfBytes(Un(hist[4].a.k)), BigOfBytes(Un(hist[2].a.k)), CN))
Curve == \A k \in 1..NRegs : OnCurve(st.pub[k])
=============================================================================
