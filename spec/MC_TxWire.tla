----------------------------- MODULE MC_TxWire -----------------------------
(* Small transactions of every shape, signed with arbitrary bytes or not:       *)
(* what is written reads back, ids and sizes are those of the bytes.            *)
EXTENDS TxCommit, GenRun
CONSTANT Deep
Coins == << [t |-> "p2pkh", comp |-> TRUE, m |-> 1, ks |-> <<1>>], [t |-> "p2wsh", comp |-> TRUE, m |-> 1, ks |-> <<1>>],
            [t |-> "p2wpkh", comp |-> TRUE, m |-> 1, ks |-> <<3>>], [t |-> "p2sh", comp |-> FALSE, m |-> 1, ks |-> <<2>>] >>
GInits == { [nout |-> o, cs |-> cs] : o \in (IF Deep THEN {0, 1, 2, 3} ELSE {0, 2}), cs \in UNION { [1..k -> 1..4] : k \in 1..2 } }
     \cup (IF Deep THEN { [nout |-> 1, cs |-> cs] : cs \in [1..3 -> 1..3] } ELSE {})
NIn == Len(ini.cs)
Built == NIn + ini.nout
Sg(n, k) == [k |-> Hx(Rep(k, 33)), s |-> Hx(Rep(n % 256, n))]
SignSets == { << >>, <<Sg(0, 1)>>, <<Sg(71, 2)>>, <<Sg(1, 2), Sg(75, 3)>> } \cup (IF Deep /\ NIn < 3 THEN { <<Sg(76, 4)>>, <<Sg(255, 4), Sg(256, 5), Sg(72, 6)>> } ELSE {})
Leave == Rec("text", [x |-> 0])
GMoves(s, n) ==
  CASE n <= NIn -> { Rec("in", InArgs(Coins[ini.cs[n]], n - 1, IF n = 1 THEN "9223372036854775000" ELSE "50")) }
    [] n <= Built -> { Rec("out", [OutArgs(n - NIn - 1) EXCEPT !.v = IF n = Built THEN "2000000000000000" ELSE "1"]) }
    [] n <= Built + NIn -> { Leave } \cup { Rec("embed", [i |-> n - Built - 1, signs |-> g]) : g \in SignSets }
    [] n = Built + NIn + 1 -> { Rec("ser", [x |-> 0]) }
    [] n = Built + NIn + 2 -> { Rec("load", [b |-> Hx(SerFull(s.tx)), strip |-> FALSE, reuse |-> TRUE]), Rec("load", [b |-> Hx(SerStrip(s.tx)), strip |-> TRUE, reuse |-> FALSE]),
                                Rec("load", [b |-> Hx(SubSeq(SerFull(s.tx), 1, Len(SerFull(s.tx)) - 1)), strip |-> FALSE, reuse |-> TRUE]) }
    [] n = Built + NIn + 3 -> { Rec("ser", [x |-> 0]) }
    [] OTHER -> {}
Ready == Len(hist) >= Built + NIn /\ st.tx.ins # << >>
NoWit(tx) == [tx EXCEPT !.ins = [k \in 1..Len(tx.ins) |-> [tx.ins[k] EXCEPT !.wit = << >>]] \o << >>]
\* the fields that travel
Wire(tx) == [ver |-> tx.ver, lock |-> tx.lock, outs |-> tx.outs,
             ins |-> [k \in 1..Len(tx.ins) |-> [hash |-> tx.ins[k].hash, idx |-> tx.ins[k].idx, seq |-> tx.ins[k].seq,
                                                sig |-> IF Segwit(tx.ins[k]) THEN << >> ELSE tx.ins[k].sig, wit |-> tx.ins[k].wit]] \o << >>]
Round == Ready => LET r == ParseFull(SerFull(st.tx)) IN r.ok /\ Wire(r.tx) = Wire(st.tx) /\ SerFull(r.tx) = SerFull(st.tx)
RoundStrip == Ready => LET r == ParseStrip(SerStrip(st.tx)) IN r.ok /\ Wire(r.tx) = Wire(NoWit(st.tx)) /\ SerStrip(r.tx) = SerStrip(st.tx)
\* no proper beginning of a transaction is a transaction
Prefix == Len(hist) = Built + NIn => \A n \in 0..(Len(SerFull(st.tx)) - 1) : ~ParseFull(SubSeq(SerFull(st.tx), 1, n)).ok
IdStable == Ready => TxHash(st.tx) = TxHash(NoWit(st.tx)) /\ (HasWit(st.tx) <=> WTxHash(st.tx) # TxHash(st.tx))
Sizes == Ready => /\ 4 * Vsize(st.tx) >= Weight(st.tx) /\ 4 * Vsize(st.tx) < Weight(st.tx) + 4
                  /\ (~HasWit(st.tx) => Vsize(st.tx) = TotalSize(st.tx))
                  /\ Weight(st.tx) = 4 * BaseSize(st.tx) + (TotalSize(st.tx) - BaseSize(st.tx))
=============================================================================
