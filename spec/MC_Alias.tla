------------------------------- MODULE MC_Alias -----------------------------
(* Every operation, then every other one that shares a value with it, then the *)
(* first again with the same arguments: nothing the caller holds may change,    *)
(* and the first must say what it said before.  Or, after the operation, the    *)
(* caller writes over bytes it passed or got, calls again, does so with bytes   *)
(* of the same contents elsewhere, takes its change back and calls once more.   *)
EXTENDS AliasSpec, Script, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Sec(s) == Sha256(StrToBytes(s))
H20(s) == SubSeq(Sec(s), 1, 20)
B(k, b, n) == [k |-> k, b |-> Hx(b), spare |-> n]
L(k, l, n) == [k |-> k, l |-> l, b |-> "0102", spare |-> n]
KeyB == SubSeq(Sec("key"), 1, 31)
Pub(s) == Hx(<<2>> \o Sec(s))
Leaves == <<Hx(Sec("1")), Hx(Sec("2")), Hx(Sec("3"))>>
\* a locking script, the same bytes an address has, room behind both
Long == SubSeq(FlatCat([k \in 1..4 |-> Sec(IntToStr(k))]), 1, 100)
Pool0 == << B("b", P2PKH(H20("a")), 8), B("b", H20("b"), 40), B("b", <<81, 82, 147, 83, 135>>, 1), B("h", Sec("m"), 16), B("h", Sec("o"), 0),
           B("q", <<0, 1, 31, 5, 7, 9>>, 8), B("t", StrToBytes("OP_DUP OP_1 OP_ADD"), 0), B("t", StrToBytes(Hx(Sec("id"))), 0),
           L("L", <<Pub("1"), Pub("2"), Pub("3")>>, 2), L("L", <<Hx(<<6>> \o Sec("x") \o Sec("y")), Pub("2")>>, 1), B("b", <<100>> \o Long, 3), B("b", <<77, 4, 1>> \o Long \o Long \o SubSeq(Long, 1, 60) \o <<81>>, 0), L("L", Leaves, 0), L("m", Leaves, 0), L("d", Leaves, 0),
           B("k", KeyB, 0), B("k", Sec("k2"), 0), B("p", KeyB, 0), B("p", Sec("k3"), 0), B("n", SubSeq(Sec("n"), 1, 20), 0), B("n", <<77>>, 0), B("s", <<5>>, 0), B("s", Sec("s"), 0),
           B("H", SubSeq(Sec("hd"), 1, 16), 0), B("B", <<1, 2>>, 0), B("K", <<3>>, 4), B("w", <<9, 8>>, 0), [k |-> "a", a |-> [t |-> "p2pkh", h |-> Hx(H20("a"))]],
           B("f", P2PKH(H20("a")), 0), B("o", P2PKH(H20("a")), 0), B("o", P2WPKH(H20("c")), 0), L("x", <<Hx(P2PKH(H20("a"))), Hx(P2WPKH(H20("c"))), Hx(P2SH(H20("r")))>>, 0), B("E", << >>, 0),
           [k |-> "M", cmd |-> "inv", f |-> [items |-> <<[t |-> "1", h |-> Hx(Sec("i"))]>>]] >>
Odds(x) == [i \in 1..Len(x) |-> IF x[i] % 2 = 0 THEN x[i] + 1 ELSE x[i] - 1] \o << >>
Over(c) == CASE c.k = "L" -> [c EXCEPT !.l = [i \in 1..Len(@) |-> Hx(Odds(HexToBytes(@[CASE i = 1 -> Len(@) [] i = Len(@) -> 1 [] OTHER -> i])))] \o << >>]
             [] c.k = "n" -> [c EXCEPT !.b = LET x == HexToBytes(@) IN Hx(SubSeq(x, 1, Len(x) - 1) \o Odds(<<x[Len(x)]>>))]
             [] OTHER -> [c EXCEPT !.b = Hx(Odds(HexToBytes(@)))]
\* and behind them, each byte string as it is once the caller has written over it
Bytes0 == SelectSeq([k \in 1..Len(Pool0) |-> k] \o << >>, LAMBDA k : Pool0[k].k \in {"b", "h", "q", "L", "n"})
Pool == Pool0 \o [j \in 1..Len(Bytes0) |-> Over(Pool0[Bytes0[j]])]
Twin(k) == Len(Pool0) + (CHOOSE j \in 1..Len(Bytes0) : Bytes0[j] = k)
Of(kind) == SelectSeq([k \in 1..Len(Pool0) |-> k] \o << >>, LAMBDA k : Pool0[k].k = kind)
\* the v-th way of choosing arguments: each the first of its kind not taken yet, or all the last
RECURSIVE Pick(_, _, _, _)
Pick(ks, n, v, acc) ==
  IF n > Len(ks) THEN acc
  ELSE LET c == Of(ks[n])
           free == SelectSeq(c, LAMBDA k : \A j \in 1..Len(acc) : acc[j] # k)
       IN Pick(ks, n + 1, v, Append(acc, IF v = 1 THEN c[Len(c)] ELSE IF free = << >> THEN c[1] ELSE free[1]))
Ops == { f \in DOMAIN Sig : \A k \in 1..Len(Sig[f].in) : Sig[f].in[k] \notin {"P", "S", "c"} } \ {"mpc.ecdsa", "mn.seed"}
Call(f, v, p) == Rec("call", [f |-> f, args |-> Pick(Sig[f].in, 1, v, << >>), p |-> p])
KindsOf(f) == { Sig[f].in[k] : k \in 1..Len(Sig[f].in) }
Weight0(f) == Sha256(StrToBytes(f))[1]
Near(f, g) == KindsOf(f) \cap KindsOf(g) # {} /\ (Deep \/ (KindsOf(f) \cap KindsOf(g)) \ {"b", "t", "h"} # {} \/ (Weight0(f) + Weight0(g)) % 6 = 0)
\* the byte strings a call takes or returns
Edits(a) == { a.args[j] : j \in { j \in 1..Len(a.args) : Sig[a.f].in[j] \in {"b", "h", "q", "L", "n"} } } \cup { Len(Pool) + j : j \in { j \in 1..Len(Sig[a.f].out) : Sig[a.f].out[j] \in {"b", "q", "L", "d", "n", "s"} } }
GInits == { [f |-> f, v |-> v] : f \in Ops, v \in IF Deep THEN {0, 1} ELSE {0} }
GMoves(s, n) ==
  CASE n = 1 -> {Rec("pool", [cells |-> Pool])}
    [] n = 2 -> {Call(ini.f, ini.v, 1)}
    [] n = 3 -> { Call(g, w, 5) : g \in { g \in Ops : Near(ini.f, g) }, w \in IF Deep THEN {0, 1} ELSE {ini.v} }
             \cup { Rec("edit", [k |-> k]) : k \in { k \in Edits(hist[2].a) : k <= Len(Pool) => k \in {hist[2].a.args[j] : j \in 1..Len(hist[2].a.args)} } }
    [] n = 4 -> {[op |-> "call", a |-> hist[2].a]}
    [] n = 5 /\ hist[3].op = "edit" -> LET k == hist[3].a.k
                                       IN IF k <= Len(Pool) THEN {Rec("call", [hist[2].a EXCEPT !.args = [j \in 1..Len(@) |-> IF @[j] = k THEN Twin(k) ELSE @[j]]])} ELSE {hist[3]}
    [] n = 6 /\ hist[3].op = "edit" -> IF hist[5].op = "edit" THEN {hist[4]} ELSE {[op |-> "edit", a |-> hist[3].a]}
    [] n = 7 /\ hist[5].op = "call" -> {[op |-> "call", a |-> hist[2].a]}
    [] OTHER -> {}
Again == Len(hist) >= 4 => hist[4].a = hist[2].a
Undone == Len(hist) = 7 => hist[6].a = hist[3].a /\ hist[7].a = hist[2].a
WellKinded == Len(hist) >= 2 => \A j \in 2..Len(hist) : hist[j].op = "edit" \/ LET a == hist[j].a IN \A k \in 1..Len(a.args) : Pool[a.args[k]].k = Sig[a.f].in[k]
ASSUME Detached \subseteq DOMAIN Sig
ASSUME \A f \in Changing : f \in DOMAIN Sig /\ Len(Sig[f].in) >= 1
ASSUME \A f \in Ops : KindsOf(f) \subseteq { Pool[k].k : k \in 1..Len(Pool) }
=============================================================================
