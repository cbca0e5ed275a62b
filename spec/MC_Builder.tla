----------------------------- MODULE MC_Builder -----------------------------
(* Builders of every configuration around every limit, and every short history *)
(* of setter calls: what is built balances, pays what was asked for in order,   *)
(* verifies once signed, and is refused exactly if something stands in the way. *)
EXTENDS Builder, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
D(n) == IntToStr(n)
KeyNo(k) == BigToBytes(Big(1000 + 7 * k), 32)
PubK(k, comp) == KeyBytes(Big(1000 + 7 * k), comp)
Kinds == {"p2pkh", "p2wpkh", "p2sh", "p2wsh"}
RedeemK(k) == MultiSig(1, <<PubK(k, TRUE), PubK(k + 1, TRUE)>>)
ScriptK(t, k, comp) == CASE t = "p2pkh" -> P2PKH(Hash160(PubK(k, comp))) [] t = "p2wpkh" -> P2WPKH(Hash160(PubK(k, comp)))
                         [] t = "p2sh" -> P2SH(Hash160(RedeemK(k))) [] t = "p2wsh" -> P2WSH(Sha256(RedeemK(k))) [] OTHER -> <<106>>
CoinOp(t, k, v, comp) == Rec("coin", [id |-> Hx(Rep(k, 32)), n |-> D(k), v |-> v, script |-> Hx(ScriptK(t, k, comp))])
KeysOp(k) == Rec("keys", [keys |-> <<Hx(KeyNo(k))>>])
ToOp(k, v) == Rec("to", [t |-> "p2wpkh", h |-> Hx(Rep(k, 20)), v |-> v])
ChangeOp == Rec("change", [t |-> "p2sh", h |-> Hx(Rep(200, 20))])
X0 == [x |-> 0]
If(b, ms) == IF b THEN ms ELSE << >>

(* ---- configurations: two coins, two outputs, a fee policy, limits ---- *)
\* what the two outputs take together: [off below the inputs]
Vs == {"100000", "18446744073709551615"}
\* what is left over for fee and change
Left == {"0", "999", "1000", "1001", "250000000"}
Fees == {"def", "0", "1001", "rate1000", "rate1"} \cup (IF Deep THEN {"18446744073709551615", "ratemax", "rateneg"} ELSE {})
Maxs == IF Deep THEN {"def", "999", "-1"} ELSE {"def", "999"}
Kin == IF Deep THEN {<<"p2pkh", "p2pkh">>, <<"p2wpkh", "p2pkh">>, <<"p2sh", "p2wsh">>, <<"p2wsh", "p2wpkh">>, <<"p2wsh", "">>, <<"p2pkh", "">>, <<"", "p2sh">>, <<"", "">>}
       ELSE {<<"p2pkh", "p2wsh">>, <<"p2wpkh", "">>, <<"", "p2sh">>, <<"", "">>}
Plans == { [mode |-> "plan", k |-> k, v |-> v, left |-> l, fee |-> f, max |-> m, chg |-> c, sg |-> s, push |-> p] :
             k \in Kin, v \in Vs, l \in Left, f \in Fees, m \in Maxs, c \in BOOLEAN, s \in {"", "all", "miss"}, p \in {0, 2} }
          \ { [mode |-> "plan", k |-> k, v |-> v, left |-> l, fee |-> f, max |-> m, chg |-> c, sg |-> s, push |-> 2] :
             k \in Kin, v \in Vs, l \in Left, f \in Fees, m \in Maxs, c \in BOOLEAN, s \in {"all", "miss"} }
Ncoins(p) == (IF p.k[1] = "" THEN 0 ELSE 1) + (IF p.k[2] = "" THEN 0 ELSE 1)
OutTotal(p) == BSub(BMul(Big(Ncoins(p)), BigDec(p.v)), BigDec(p.left))
\* two outputs that take the total: as much as fits in the first, the rest in the second
OutVals(p) == LET t == OutTotal(p)
                  m == BigDec("18446744073709551615")
              IN IF BLt(t, Big(0)) THEN <<"5", "0">>
                 ELSE IF BLt(m, t) THEN <<BigToDec(m), BigToDec(BSub(t, m))>> ELSE <<BigToDec(BDiv(t, Big(3))), BigToDec(BSub(t, BDiv(t, Big(3))))>>
FeeOps(f) == CASE f = "def" -> << >> [] f = "rate1000" -> <<Rec("rate", [v |-> "1000"])>> [] f = "rate1" -> <<Rec("rate", [v |-> "1"])>>
               [] f = "ratemax" -> <<Rec("rate", [v |-> "9223372036854775807"])>> [] f = "rateneg" -> <<Rec("rate", [v |-> "-1000"])>>
               [] OTHER -> <<Rec("fee", [v |-> f])>>
CoinOps(p, j) == LET t == p.k[j]
                     comp == t # "p2pkh"
                 IN If(t # "", <<CoinOp(t, 10 * j, p.v, comp)>> \o If(t \in {"p2sh", "p2wsh"}, <<Rec("redeem", [b |-> Hx(RedeemK(10 * j))])>>)
                        \o If(~comp, <<Rec("uncomp", X0)>>) \o If(p.sg # "miss" \/ j = 2, <<KeysOp(10 * j)>>))
PlanOps(p) == LET o == OutVals(p) IN
  CoinOps(p, 1) \o <<ToOp(1, o[1]), Rec("then", X0)>> \o CoinOps(p, 2) \o <<ToOp(2, o[2])>>
  \o FeeOps(p.fee) \o If(p.max # "def", <<Rec("max", [v |-> p.max])>>) \o If(p.chg, <<ChangeOp>>) \o If(p.sg # "", <<Rec("sign", X0)>>)
  \o If(p.push > 0, <<Rec("push", [b |-> Hx(Rep(7, 80))]), Rec("push", [b |-> ""]), Rec("push", [b |-> "0102"])>>)
  \o <<Rec("build", X0)>>

(* ---- free histories ---- *)
FreeMoves == { CoinOp("p2pkh", 10, "50000", TRUE), CoinOp("p2wsh", 20, "60000", TRUE), KeysOp(10), KeysOp(20), Rec("redeem", [b |-> Hx(RedeemK(20))]),
               ToOp(1, "40000"), Rec("then", X0), Rec("uncomp", X0), Rec("ht", [v |-> "131"]), ChangeOp }
             \cup (IF Deep THEN { ToOp(2, "50000"), Rec("sign", X0), Rec("push", [b |-> "00"]), Rec("keys", [keys |-> << >>]), Rec("build", X0) } ELSE {})
FreeLen == 4
Tail1 == <<ToOp(3, "7"), Rec("sign", X0), ChangeOp, Rec("build", X0), Rec("build", X0)>>

GInits == Plans \cup { [mode |-> "free"] }
PlanAt(p, n) == LET ops == PlanOps(p) IN IF n <= Len(ops) THEN {ops[n]} ELSE {}
GMoves(s, n) == IF ini.mode = "plan" THEN PlanAt(ini, n)
                ELSE IF n <= FreeLen THEN FreeMoves
                ELSE IF n <= FreeLen + Len(Tail1) THEN {Tail1[n - FreeLen]} ELSE {}

(* ---- what holds of every build ---- *)
Now == hist # << >> /\ hist[Len(hist)].op = "build"
B == Build(st)
Req == OutsOf(st)
Balanced == Now /\ B.ok => BAdd(SumOf(Vals(B.tx.outs)), B.fee) = SumOf(Vals(B.tx.ins)) /\ SumOf(Vals(B.tx.ins)) = TotalIn(st)
InOrder == Now /\ B.ok =>
  LET tx == B.tx
      np == Len(st.push)
      extra == Len(tx.outs) - Len(Req) - np
  IN /\ Len(tx.ins) = Len(CoinsOf(st))
     /\ \A k \in 1..Len(tx.ins) : IdOf(tx.ins[k].hash) = CoinsOf(st)[k].coin[1].id /\ DecOfLE(tx.ins[k].val) = CoinsOf(st)[k].coin[1].v
     /\ \A k \in 1..Len(Req) : DecOfLE(tx.outs[k].val) = Req[k].to[1].v /\ tx.outs[k].s = LockFor(Req[k].to[1])
     /\ extra \in {0, 1}
     /\ (extra = 1 => st.change # << >> /\ tx.outs[Len(Req) + 1].s = LockFor(st.change[1]) /\ tx.outs[Len(Req) + 1].val # Rep(0, 8))
     /\ \A k \in 1..np : tx.outs[Len(Req) + extra + k].val = Rep(0, 8) /\ tx.outs[Len(Req) + extra + k].s[1] = 106
FeeFits == Now /\ B.ok => BLeq(B.fee, BigDec(st.max))
Refused == Now =>
  LET need == BAdd(TotalOut(st), B.fee) IN
  (ini.mode = "plan" =>
    (B.ok <=> /\ Ncoins(ini) > 0
              /\ BLeq(B.fee, BigDec(st.max))
              /\ BLeq(need, TotalIn(st))
              /\ (BLt(need, TotalIn(st)) => ini.chg /\ BBitLen(BSub(TotalIn(st), need)) <= 64)
              /\ (ini.sg = "miss" => ini.k[1] = "")))
\* signed with the right keys: it verifies; not signed at all: it does not
Verifies == Now /\ B.ok /\ ini.mode = "plan" => (TxOk(B.tx) = (ini.sg = "all" \/ (ini.sg = "miss" /\ ini.k[1] = "")))
=============================================================================
