----------------------------- MODULE MC_TxHash -----------------------------
(* For every shape, input, hash type and single change: the hash changes        *)
(* exactly when the table says the signature commits to what changed.           *)
EXTENDS TxCommit, GenRun
CONSTANT Deep
Coins == << [t |-> "p2pkh", comp |-> TRUE, m |-> 1, ks |-> <<1>>], [t |-> "p2wsh", comp |-> TRUE, m |-> 1, ks |-> <<1, 2>>],
            [t |-> "p2wpkh", comp |-> TRUE, m |-> 1, ks |-> <<3>>], [t |-> "p2sh", comp |-> FALSE, m |-> 2, ks |-> <<2, 3>>] >>
Types == {1, 2, 3, 129, 130, 131} \cup (IF Deep THEN {0, 4, 31, 128, 132, 65, 227} ELSE {0, 161})
GInits == { [nin |-> i, nout |-> o, c |-> c] : i \in (IF Deep THEN 1..4 ELSE 1..3), o \in (IF Deep THEN 0..4 ELSE 0..3), c \in 1..(IF Deep THEN 4 ELSE 2) }
CoinAt(k) == Coins[((ini.c + k - 1) % 4) + 1]
Built == ini.nin + ini.nout
GMoves(s, n) ==
  CASE n <= ini.nin -> { Rec("in", InArgs(CoinAt(n - 1), n - 1, D(10000 + n - 1))) }
    [] n <= Built -> { Rec("out", OutArgs(n - ini.nin - 1)) }
    [] n = Built + 1 -> { Rec(op, [i |-> i, ht |-> D(t)]) : op \in {"rawhash", "withash"}, i \in 0..(ini.nin - 1), t \in Types }
    [] n = Built + 2 -> { c.m : c \in Changes(ini.nin, ini.nout) }
                        \cup { Rec("in", InArgs(Coins[1], 9, "77")) }
                        \cup { Rec("attach", CoinArgs(c, [i |-> hist[n - 1].a.i, v |-> D(10000 + hist[n - 1].a.i), script |-> ""])) : c \in {[t |-> "p2wpkh", comp |-> TRUE, m |-> 1, ks |-> <<5>>], [t |-> "p2sh", comp |-> TRUE, m |-> 1, ks |-> <<5, 6>>]} }
    [] n = Built + 3 -> { Rec(hist[n - 2].op, hist[n - 2].a) }
    [] OTHER -> {}
\* which field the change at position n is
Changed(m) == IF m.op = "in" THEN [f |-> "addin", j |-> ini.nin]
              ELSE IF m.op = "attach" THEN [f |-> "code", j |-> m.a.i]
              ELSE LET c == CHOOSE x \in Changes(ini.nin, ini.nout) : x.m.op = m.op /\ x.m.a = m.a IN [f |-> c.f, j |-> c.j]
Committed ==
  Len(hist) = Built + 3 =>
    LET h1 == hist[Built + 1]
        m == Changed(hist[Built + 2])
        h2 == hist[Built + 3]
        t == CHOOSE t \in Types : D(t) = h1.a.ht
        \* a base input has no witness script code: changing it to a segwit one changes the witness hash and so on; only
        \* changes of the code that the hash is about count
        wit == h1.op = "withash"
        expect == IF m.f = "code" THEN
                     LET in0 == Spend(BareIn(<< >>, << >>, << >>, << >>), Rep(0, 8), ScriptFor(CoinAt(m.j)), IF Nested(CoinAt(m.j)) THEN <<RedeemOf(CoinAt(m.j).m, CoinAt(m.j).ks, CoinAt(m.j).comp)>> ELSE << >>).in
                         in1 == st.tx.ins[m.j + 1]
                     IN Commits(wit, "code", m.j, h1.a.i, t, ini.nin, ini.nout)
                        /\ (IF wit THEN WitCode(in0) # WitCode(in1) ELSE LegacyCode(in0) # LegacyCode(in1))
                  ELSE Commits(wit, m.f, m.j, h1.a.i, t, ini.nin, ini.nout)
    IN (h1.r.h # h2.r.h) = expect
\* hashes of different inputs or types of the same transaction differ (unless both are the number one)
Distinct == Len(hist) = Built + 1 =>
            \A op \in {"r", "w"}, i \in 0..(ini.nin - 1), t \in Types :
              LET a == hist[Built + 1].a
                  same == i = a.i /\ D(t) = a.ht /\ (op = "r") = (hist[Built + 1].op = "rawhash")
                  h == Hx(IF op = "r" THEN RawHash(st.tx, i, LEDec(D(t), 4)) ELSE WitHash(st.tx, i, LEDec(D(t), 4)))
              IN same \/ h # hist[Built + 1].r.h \/ h = Hx(OneHash)
=============================================================================
