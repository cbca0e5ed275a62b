----------------------------- MODULE MC_TxSign -----------------------------
(* Sign every input, change one thing (or take the transaction apart and put it *)
(* together again), verify: it verifies exactly if the right keys signed and     *)
(* nothing that any of the signatures commits to has changed.                   *)
EXTENDS TxCommit, GenRun
CONSTANT Deep
C(t, comp, m, ks) == [t |-> t, comp |-> comp, m |-> m, ks |-> ks]
Coins == << C("p2pkh", TRUE, 1, <<1>>), C("p2wpkh", TRUE, 1, <<2>>), C("p2sh", TRUE, 2, <<1, 2, 3>>), C("p2wsh", TRUE, 2, <<3, 2, 1>>),
            C("p2pkh", FALSE, 1, <<3>>), C("p2sh", TRUE, 1, <<1, 2>>), C("p2wsh", FALSE, 2, <<2, 1>>) >>
Types == IF Deep THEN {1, 2, 3, 129, 130, 131, 0, 4} ELSE {1, 2, 3, 129, 130, 131}
\* keys that sign (or do not): what the coin needs, too few, wrong ones, wrong order
Right(c) == IF c.m = 1 THEN { <<c.ks[i]>> : i \in 1..Len(c.ks) }
            ELSE UNION { { <<c.ks[i], c.ks[j]>> : j \in (i + 1)..Len(c.ks) } : i \in 1..Len(c.ks) }
Wrong(c) == IF c.m = 1 THEN { <<9>>, << >> } ELSE { <<c.ks[1]>>, <<c.ks[2], c.ks[1]>>, <<c.ks[1], c.ks[1]>>, <<9, c.ks[2]>>, << >> }
GInits == { [c1 |-> a, c2 |-> b, nout |-> o, t |-> t] : a \in (IF Deep THEN 1..7 ELSE 1..4), b \in (IF Deep THEN 1..4 ELSE {0, 2}), o \in (IF Deep THEN 0..2 ELSE {1, 2}), t \in Types }
          \cup (IF Deep THEN {} ELSE { [c1 |-> a, c2 |-> 0, nout |-> 1, t |-> 1] : a \in 5..7 })
NIn == IF ini.c2 = 0 THEN 1 ELSE 2
Coin(k) == Coins[IF k = 0 THEN ini.c1 ELSE ini.c2]
Built == NIn + ini.nout
SignA(i, ks, t) == [i |-> i, comp |-> Coin(i).comp, ht |-> D(t), keys |-> [k \in 1..Len(ks) |-> Hx(KeyNo(ks[k]))] \o << >>]
One1(S) == { CHOOSE x \in S : TRUE }
Sgn == Built + NIn          \* all inputs signed
Args(k) == CoinArgs(Coin(k), [i |-> k, v |-> D(10000 + k), script |-> ""])
Verify == { Rec("verify", [x |-> 0]) }
GMoves(s, n) ==
  CASE n <= NIn -> { Rec("in", InArgs(Coin(n - 1), n - 1, D(10000 + n - 1))) }
    [] n <= Built -> { Rec("out", OutArgs(n - NIn - 1)) }
    [] n = Built + 1 -> { Rec("sign", SignA(0, ks, ini.t)) : ks \in Right(Coin(0)) \cup Wrong(Coin(0)) }
    \* the other input always signs the same way, committing to everything
    [] n <= Sgn -> { Rec("sign", SignA(1, ks, 1)) : ks \in One1(Right(Coin(1))) }
    [] n = Sgn + 1 -> Verify
    [] n = Sgn + 2 -> IF ~hist[n - 1].r.ok THEN {}
                      ELSE { c.m : c \in Changes(NIn, ini.nout) } \cup { Rec("in", InArgs(Coins[1], 9, "77")) }
                           \cup { Rec("load", [b |-> Hx(SerFull(s.tx)), strip |-> FALSE, reuse |-> FALSE]) }
                           \cup { Rec("sign", [SignA(0, <<8>>, 1) EXCEPT !.i = i]) : i \in {-1, NIn} }
    [] n = Sgn + 3 -> IF hist[n - 1].op # "load" THEN Verify
                      ELSE { Rec("attach", Args(0)),
                             Rec("attach", [Args(0) EXCEPT !.v = "1"]),
                             Rec("attach", CoinArgs(C("p2sh", TRUE, 1, <<5, 6>>), [i |-> 0, v |-> D(10000), script |-> ""])),
                             Rec("attach", CoinArgs(C("p2wpkh", TRUE, 1, <<6>>), [i |-> 0, v |-> D(10000), script |-> ""])) }
                           \cup (IF Nested(Coin(0)) THEN { Rec("attach", [Args(0) EXCEPT !.redeem = Hx(RedeemOf(1, <<9>>, TRUE))]) } ELSE {})
    [] n = Sgn + 4 -> IF hist[n - 1].op # "attach" THEN {} ELSE IF NIn = 2 THEN { Rec("attach", Args(1)) } ELSE Verify
    [] n = Sgn + 5 -> IF hist[n - 1].op # "attach" THEN {} ELSE Verify
    [] OTHER -> {}
KeysOf(i) == LET ks == hist[Built + 1 + i].a.keys IN [k \in 1..Len(ks) |-> CHOOSE j \in 1..9 : Hx(KeyNo(j)) = ks[k]] \o << >>
Signed == \A i \in 0..(NIn - 1) : KeysOf(i) \in Right(Coin(i))
TypeOf(i) == IF i = 0 THEN ini.t ELSE 1
FieldOf(m) == IF m.op = "in" THEN [f |-> "addin", j |-> NIn]
              ELSE LET c == CHOOSE x \in Changes(NIn, ini.nout) : x.m.op = m.op /\ x.m.a = m.a IN [f |-> c.f, j |-> c.j]
SignedVerifies == Len(hist) = Sgn + 1 => hist[Sgn + 1].r.ok = Signed
TamperFound ==
  Len(hist) = Sgn + 3 /\ hist[Sgn + 3].op = "verify" =>
    LET m == hist[Sgn + 2] IN
    hist[Sgn + 3].r.ok = IF m.op = "sign" THEN ~m.r.ok        \* refused, and nothing changed
                         ELSE m.op # "in"                     \* a new input is not signed
                              /\ \A i \in 0..(NIn - 1) : ~Commits(Segwit(st.tx.ins[i + 1]), FieldOf(m).f, FieldOf(m).j, i, TypeOf(i), NIn, ini.nout)
Reattached ==
  Len(hist) > Sgn + 3 /\ hist[Len(hist)].op = "verify" =>
    LET m == hist[Sgn + 3]
        same == m.a = Args(0)
        valOnly == Has(m.a, "redeem") = Has(Args(0), "redeem") /\ m.a = [Args(0) EXCEPT !.v = "1"]
    IN hist[Len(hist)].r.ok = (same \/ (valOnly /\ Coin(0).t \in {"p2pkh", "p2sh"}))
       \/ \* a p2sh output never looks at the attached redeem script except for hashing
          (Coin(0).t = "p2sh" /\ ini.t \in {3, 131} /\ ini.nout = 0)
\* the identifier does not move by signing
IdSame == Len(hist) = Sgn /\ NIn = 1 /\ Coin(0).t \in {"p2wpkh", "p2wsh"} =>
          TxHash(st.tx) = TxHash([st.tx EXCEPT !.ins[1].sig = << >>, !.ins[1].wit = << >>])
=============================================================================
