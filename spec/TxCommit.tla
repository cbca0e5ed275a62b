------------------------------ MODULE TxCommit ------------------------------
(* What a signature of input i with hash type t commits to, as a table of its  *)
(* own (the definitions of the hashes are in Tx.tla), and coins to spend.      *)
EXTENDS TxSpec
Rec(op, a) == [op |-> op, a |-> a]
D(n) == IntToStr(n)
KeyNo(k) == BigToBytes(Big(1000 + 7 * k), 32)
Pub(k, comp) == KeyBytes(Big(1000 + 7 * k), comp)
HashNo(k) == [j \in 1..32 |-> (k * 16 + j) % 256] \o << >>
RedeemOf(m, ks, comp) == MultiSig(m, [k \in 1..Len(ks) |-> Pub(ks[k], comp)] \o << >>)
\* kinds of coins: [t, comp, m, ks]
ScriptFor(c) ==
  CASE c.t = "p2pkh" -> P2PKH(Hash160(Pub(c.ks[1], c.comp)))
    [] c.t = "p2wpkh" -> P2WPKH(Hash160(Pub(c.ks[1], c.comp)))
    [] c.t = "p2sh" -> P2SH(Hash160(RedeemOf(c.m, c.ks, c.comp)))
    [] c.t = "p2wsh" -> P2WSH(Sha256(RedeemOf(c.m, c.ks, c.comp)))
Nested(c) == c.t \in {"p2sh", "p2wsh"}
CoinArgs(c, a) == LET b == [a EXCEPT !.script = Hx(ScriptFor(c))] IN
                  IF Nested(c) THEN b @@ [redeem |-> Hx(RedeemOf(c.m, c.ks, c.comp))] ELSE b
InArgs(c, k, v) == CoinArgs(c, [h |-> Hx(HashNo(k)), n |-> D(k), seq |-> D(4000 + k), v |-> v, script |-> ""])
OutScript(k) == P2PKH(Rep(16 + k, 20))
OutArgs(k) == [v |-> D(500 + k), s |-> Hx(OutScript(k))]

\* field f (of input or output j, 0-based) in the hash of input i, type t; nin and nout as they are before the change
Commits(wit, f, j, i, t, nin, nout) ==
  LET bt == t % 32
      acp == t >= 128
      some == bt \in {TNone, TSingle}
  IN IF ~wit /\ bt = TSingle /\ i >= nout THEN f = "addout" /\ i = nout     \* hashes to one
     ELSE CASE f \in {"ver", "lock"} -> TRUE
            [] f \in {"hash", "n"} -> j = i \/ ~acp
            [] f = "seq" -> j = i \/ (~acp /\ ~some)
            [] f = "val" -> wit /\ j = i
            [] f = "code" -> j = i
            [] f \in {"outval", "outscript"} -> bt # TNone /\ (bt = TSingle => j = i)
            [] f = "addout" -> IF bt = TNone THEN FALSE ELSE IF bt = TSingle THEN i = nout ELSE TRUE
            [] f = "addin" -> ~acp
\* single changes of a transaction with inputs cs and nout outputs: [f, j, op, a]
Base(k) == [i |-> k, h |-> Hx(HashNo(k)), n |-> D(k), seq |-> D(4000 + k), v |-> D(10000 + k)]
Changes(nin, nout) ==
  { [f |-> "ver", j |-> 0, m |-> Rec("ver", [v |-> "2"])], [f |-> "lock", j |-> 0, m |-> Rec("lock", [v |-> "500000"])] }
  \cup UNION { { [f |-> "hash", j |-> j, m |-> Rec("setin", [Base(j) EXCEPT !.h = Hx(HashNo(j + 9))])],
                 [f |-> "n", j |-> j, m |-> Rec("setin", [Base(j) EXCEPT !.n = "4294967295"])],
                 [f |-> "seq", j |-> j, m |-> Rec("setin", [Base(j) EXCEPT !.seq = "0"])],
                 [f |-> "val", j |-> j, m |-> Rec("setin", [Base(j) EXCEPT !.v = "18446744073709551615"])] } : j \in 0..(nin - 1) }
  \cup UNION { { [f |-> "outval", j |-> j, m |-> Rec("setout", [i |-> j, v |-> "9", s |-> Hx(OutScript(j))])],
                 [f |-> "outscript", j |-> j, m |-> Rec("setout", [i |-> j, v |-> D(500 + j), s |-> Hx(OutScript(j + 5))])] } : j \in 0..(nout - 1) }
  \cup { [f |-> "addout", j |-> nout, m |-> Rec("out", OutArgs(77))] }
=============================================================================
