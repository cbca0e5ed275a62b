---------------------------- MODULE MC_Paillier ----------------------------
(* The algebra, exhaustively on small keys, and every short schedule of       *)
(* operations, which the driver performs on real keys.                        *)
EXTENDS PaillierSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
P(k, o) == [nil |-> FALSE, k |-> k, o |-> o]
NoP == [nil |-> TRUE, k |-> 0, o |-> "0"]
H(i) == [t |-> "h", i |-> i]
X(t) == [t |-> t, i |-> 1]
Specials == {X("nil"), X("zero"), X("neg"), X("one"), X("nn"), X("nn1"), X("n"), X("over"), X("under")}
GInits == { [x |-> 0] }
Plain == {P(0, "0"), P(0, "1"), P(1, "-1")}
Scal == {P(0, "0"), P(0, "1"), P(0, "2"), P(0, "-1"), P(1, "-1"), P(1, "0"), P(1, "2"), P(-1, "3"), NoP}
Ops(i, j, all) ==
  { Rec(o, [k |-> 1, c |-> H(i), d |-> H(j)]) : o \in {"add", "sub"} }
  \cup { Rec("sub", [k |-> 1, c |-> H(j), d |-> H(i)]), Rec("add", [k |-> 1, c |-> H(i), d |-> H(i)]), Rec("sub", [k |-> 1, c |-> H(i), d |-> H(i)]), Rec("dec", [k |-> 1, c |-> H(i)]) }
  \cup { Rec(o, [k |-> 1, c |-> H(i), m |-> m]) : o \in {"addp", "mulp", "divp"}, m \in IF all THEN Scal ELSE {P(0, "3"), P(1, "-1")} }
  \cup (IF ~all THEN {} ELSE
        { Rec(o, [k |-> 1, c |-> H(i), d |-> x]) : o \in {"add", "sub"}, x \in Specials }
        \cup { Rec(o, [k |-> 1, c |-> x, d |-> H(i)]) : o \in {"add", "sub"}, x \in Specials }
        \cup { Rec(o, [k |-> 1, c |-> x, m |-> P(0, "2")]) : o \in {"addp", "mulp", "divp"}, x \in Specials }
        \cup { Rec("dec", [k |-> 1, c |-> x]) : x \in Specials })
GMoves(s, n) ==
  IF n = 1 THEN { Rec("gen", [bits |-> b]) : b \in {9, 10, 17, 128} \cup (IF Deep THEN {-1, 0, 11, 12, 14, 20, 64} ELSE {}) }
  ELSE IF s.keys = << >> THEN {}
  ELSE IF n = 2 THEN { Rec("enc", [k |-> 1, m |-> m]) : m \in Plain }
  ELSE IF n = 3 THEN { Rec("enc", [k |-> 1, m |-> m]) : m \in {P(0, "2"), P(1, "-1"), P(0, "-1"), P(1, "0"), NoP} }
  ELSE IF n = 4 THEN Ops(1, 2, TRUE)
  ELSE IF Deep \/ (s.h[2].ok /\ s.h[Len(s.h)].ok) THEN Ops(Len(s.h), 1, Deep) ELSE {}

InRange == \A j \in 1..Len(st.h) : st.h[j].ok => PInPlain(st.h[j].m, ModelKey)
\* what is added and subtracted again is gone, n times anything is nothing
Undo == Len(hist) = 5 /\ hist[4].op = "add" /\ hist[5].op = "sub" /\ Len(st.h) = 4 /\ st.h[3].ok /\ hist[4].a.c = H(1)
        => IF hist[5].a.c = H(3) /\ hist[5].a.d = H(1) /\ hist[4].a.d = H(2) THEN st.h[4].m = st.h[2].m ELSE TRUE

\* exhaustive algebra on the moduli 15 and 35 (and 21: not coprime to phi, no key)
Ns == {15, 35}
Units(n) == {r \in 1..(n - 1) : BGcd(Big(r), Big(n)) = One}
E(m, r, n) == PEncR(Big(m), Big(r), Big(n))
D(c, n) == BigToInt(PDec(c, Big(n)))
ASSUME \A n \in Ns : PKeyOk(Big(n))
ASSUME ~PKeyOk(Big(21)) /\ ~PKeyOk(Big(25)) /\ ~PKeyOk(Big(30)) /\ ~PKeyOk(Big(13))
ASSUME \A n \in Ns : \A m \in 0..(n - 1), r \in Units(n) : PIsCt(E(m, r, n), Big(n)) /\ D(E(m, r, n), n) = m
ASSUME \A n \in Ns : \A m \in 0..(n - 1), l \in 0..(n - 1) :
         LET c == E(m, 2, n)
             d == E(l, 4, n)
             nn == Big(n * n)
         IN /\ D(BMulMod(c, d, nn), n) = (m + l) % n
            /\ D(BMulMod(c, BModInv(d, nn), nn), n) = (m + (n - l)) % n
            /\ D(BMulMod(c, BModPow(Big(n + 1), Big(l), nn), nn), n) = (m + l) % n
            /\ D(BModPow(c, Big(l), nn), n) = (m * l) % n
            /\ l \in Units(n) => (D(BModPow(c, BModInv(Big(l), nn), nn), n) * l) % n = m
\* every unit below n^2 is the ciphertext of something, 1 and n^2 - 1 of nothing
ASSUME \A n \in Ns : \A c \in 1..(n * n - 1) : PIsCt(Big(c), Big(n)) => D(Big(c), n) \in 0..(n - 1)
ASSUME \A n \in Ns : D(One, n) = 0 /\ D(Big(n * n - 1), n) = 0 /\ D(Big(n + 1), n) = 1
=============================================================================
