------------------------------- MODULE MC_Conc ------------------------------
(* Every two operations at once, from workers that share what they can: each    *)
(* pair is one behaviour to perform.                                             *)
EXTENDS ConcSpec, Script, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Sec(s) == Sha256(StrToBytes(s))
H20(s) == SubSeq(Sec(s), 1, 20)
B(k, b, n) == [k |-> k, b |-> Hx(b), spare |-> n]
L(k, l, n) == [k |-> k, l |-> l, b |-> "0102", spare |-> n]
KeyB == SubSeq(Sec("key"), 1, 31)
Pub(s) == Hx(<<2>> \o Sec(s))
Leaves == <<Hx(Sec("1")), Hx(Sec("2")), Hx(Sec("3"))>>
Pool == << B("b", P2PKH(H20("a")), 8), B("b", H20("b"), 40), B("b", <<81, 82, 147, 83, 135>>, 1), B("h", Sec("m"), 16), B("h", Sec("o"), 0),
           B("q", <<0, 1, 31, 5, 7, 9>>, 8), B("t", StrToBytes("OP_DUP OP_1 OP_ADD"), 0), B("t", StrToBytes(Hx(Sec("id"))), 0),
           L("L", <<Pub("1"), Pub("2"), Pub("3")>>, 2), L("L", Leaves, 0), L("m", Leaves, 0), L("d", Leaves, 0),
           B("k", KeyB, 0), B("k", Sec("k2"), 0), B("p", KeyB, 0), B("p", Sec("k3"), 0), B("n", SubSeq(Sec("n"), 1, 20), 0), B("n", <<77>>, 0), B("s", <<5>>, 0), B("s", Sec("s"), 0),
           B("H", SubSeq(Sec("hd"), 1, 16), 0), [k |-> "a", a |-> [t |-> "p2pkh", h |-> Hx(H20("a"))]],
           B("f", P2PKH(H20("a")), 0), B("o", P2PKH(H20("a")), 0), B("o", P2WPKH(H20("c")), 0) >>
Mine == << B("B", <<1, 2>>, 0), B("K", <<3>>, 4), B("w", <<9, 8>>, 0), L("x", <<Hx(P2PKH(H20("a"))), Hx(P2WPKH(H20("c"))), Hx(P2SH(H20("r")))>>, 0), B("E", << >>, 0),
           [k |-> "M", cmd |-> "inv", f |-> [items |-> <<[t |-> "1", h |-> Hx(Sec("i"))]>>]] >>
All == Pool \o Mine
Of(kind) == SelectSeq([k \in 1..Len(All) |-> k] \o << >>, LAMBDA k : All[k].k = kind)
RECURSIVE Pick(_, _, _)
Pick(ks, n, acc) ==
  IF n > Len(ks) THEN acc
  ELSE LET c == Of(ks[n])
           free == SelectSeq(c, LAMBDA k : \A j \in 1..Len(acc) : acc[j] # k)
       IN Pick(ks, n + 1, Append(acc, IF free = << >> THEN c[1] ELSE free[1]))
Ops == { f \in DOMAIN Sig : \A k \in 1..Len(Sig[f].in) : Sig[f].in[k] \notin {"P", "S", "c"} } \ {"mpc.ecdsa", "mn.seed"}
Call(f, p) == [f |-> f, args |-> Pick(Sig[f].in, 1, << >>), p |-> p]
KindsOf(f) == { Sig[f].in[k] : k \in 1..Len(Sig[f].in) }
Weight0(f) == Sha256(StrToBytes(f))[1] * 256 + Sha256(StrToBytes(f))[2]
Near(f, g) == Weight0(f) <= Weight0(g) /\ (f = g \/ (KindsOf(f) \cap KindsOf(g) # {} /\ (Deep \/ (Weight0(f) + Weight0(g)) % 5 = 0)))
Worker(f, p) == [own |-> Mine, prog |-> <<Call(f, p)>>]
GInits == { [f |-> f] : f \in Ops }
GMoves(s, n) ==
  CASE n = 1 -> {Rec("pool", [cells |-> Pool])}
    [] n = 2 -> { Rec("run", [workers |-> <<Worker(ini.f, 1), Worker(g, 5), Worker(ini.f, 1), Worker(g, 1)>>, reps |-> 2]) : g \in { g \in Ops : Near(ini.f, g) } }
    [] OTHER -> {}
\* a worker's own kinds are never in the shared pool, and what an operation changes is always one of them
ASSUME \A k \in 1..Len(Pool) : Pool[k].k \notin Own
ASSUME \A f \in Changing : Sig[f].in[1] \in Own
=============================================================================
