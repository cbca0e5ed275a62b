------------------------------ MODULE Builder ------------------------------
(* The transaction builder: coins in, outputs, change, data and fee out.      *)
(*                                                                            *)
(* state = [sign, max, fee, rate, lock, change, push, groups]; a group is     *)
(* [coin, keys, to, comp, red, ht], coin/keys/to/red empty sequences as long  *)
(* as they are not set.  Amounts stay decimal text, as given.                 *)
EXTENDS TxSpec

NewGroup == [coin |-> << >>, keys |-> << >>, to |-> << >>, comp |-> FALSE, red |-> << >>, ht |-> "0"]
BInit(init) == [sign |-> FALSE, max |-> "100000000", fee |-> "1000", rate |-> "0", lock |-> "0", change |-> << >>, push |-> << >>, groups |-> <<NewGroup>>]

(* ---- size and fee estimates ---- *)
InEst == 32 + 4 + 1 + (1 + 73 + 1 + 33) + 4
\* wits: for each input whether it carries a witness; lens: lengths of the output scripts
EstSize(wits, lens) ==
  LET n == Len(wits)
      w == Len(SelectSeq(wits, LAMBDA x : x))
      base == 4 + VarIntSize(n) + InEst * (n - w) + VarIntSize(Len(lens)) + FoldLeft(LAMBDA a, l : a + 8 + l, 0, lens) + 4
      wit == IF w = 0 THEN 0 ELSE 3 * w + (n - w)
  IN (4 * base + wit) \div 4
EstNormal(ins, outs) == 4 + VarIntSize(ins) + InEst * ins + VarIntSize(outs) + 33 * outs + 4
MaxI64 == BigDec("9223372036854775807")
\* size: a TLC number or a big one
EstFees(size, rate) ==
  IF BLeq(rate, Big(0)) \/ BLeq(size, Big(0)) THEN Big(0)
  ELSE LET f == BDiv(BMul(size, rate), Big(1000)) IN IF BLt(MaxI64, f) THEN MaxI64 ELSE f

(* ---- addresses ---- *)
LockFor(to) == CASE to.t = "p2pkh" -> P2PKH(Un(to.h)) [] to.t = "p2sh" -> P2SH(Un(to.h))
                 [] to.t = "p2wpkh" -> P2WPKH(Un(to.h)) [] to.t = "p2wsh" -> P2WSH(Un(to.h))

(* ---- building ---- *)
IsHexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
IsHex(s) == LET b == StrToBytes(s) IN Len(b) % 2 = 0 /\ \A k \in 1..Len(b) : IsHexDigit(b[k])
\* the input for a coin, or not ok
CoinIn(g) ==
  LET c == g.coin[1] IN
  IF ~IsHex(c.id) \/ ~IsHex(c.script) THEN [ok |-> FALSE]
  ELSE IF Len(Un(c.id)) # 32 THEN [ok |-> FALSE]
  ELSE Spend(BareIn(Reverse(Un(c.id)), LEDec(c.n, 4), << >>, Ff(4)), LEDec(c.v, 8), Un(c.script), g.red)
With(groups, Has1(_)) == SelectSeq(groups, Has1)
HasCoin(g) == g.coin # << >>
HasTo(g) == g.to # << >>
Total(vs) == FoldLeft(LAMBDA acc, v : BAdd(acc, BigDec(v)), Big(0), vs)
CoinsOf(s) == With(s.groups, HasCoin)
OutsOf(s) == With(s.groups, HasTo)
TotalIn(s) == Total([k \in 1..Len(CoinsOf(s)) |-> CoinsOf(s)[k].coin[1].v] \o << >>)
TotalOut(s) == Total([k \in 1..Len(OutsOf(s)) |-> OutsOf(s)[k].to[1].v] \o << >>)
U64(v) == BBitLen(v) <= 64 /\ BLeq(Big(0), v)

Other == 0
Plan(s) ==
  LET cs == CoinsOf(s)
      os == OutsOf(s)
      rs == [k \in 1..Len(cs) |-> CoinIn(cs[k])] \o << >>
      bad == \E k \in 1..Len(rs) : ~rs[k].ok
      wits == IF bad THEN << >> ELSE [k \in 1..Len(rs) |-> Segwit(rs[k].in)] \o << >>
      outs == [k \in 1..Len(os) |-> [val |-> LEDec(os[k].to[1].v, 8), s |-> LockFor(os[k].to[1])]] \o << >>
      size == EstSize(wits, [k \in 1..Len(outs) |-> Len(outs[k].s)] \o << >>) + FoldLeft(LAMBDA a, d : a + Len(Un(d)), 0, s.push)
      rate == BigDec(s.rate)
      fee == IF BLt(Big(0), rate) THEN EstFees(Big(size), rate) ELSE BigDec(s.fee)
      rest == BSub(TotalIn(s), TotalOut(s))
      change == BSub(rest, fee)
      \* signing fails: too many signatures for a single key
      nosign == s.sign /\ ~bad /\ \E k \in 1..Len(cs) : cs[k].keys # << >> /\ ~Unlocking(rs[k].in, [j \in 1..Len(cs[k].keys) |-> [k |-> << >>, s |-> << >>]]).ok
      nokey == s.sign /\ \E k \in 1..Len(cs) : cs[k].keys = << >>
      ins == IF bad THEN << >> ELSE [k \in 1..Len(rs) |-> rs[k].in] \o << >>
      chg == IF BLt(Big(0), change) /\ s.change # << >> /\ U64(change) THEN <<[val |-> LEBig(change, 8), s |-> LockFor(s.change[1])]>> ELSE << >>
      data == [k \in 1..Len(s.push) |-> [val |-> Rep(0, 8), s |-> <<106>> \o PushData(Un(s.push[k]))]] \o << >>
      tx0 == [ver |-> <<1, 0, 0, 0>>, lock |-> LEDec(s.lock, 4), ins |-> ins, outs |-> outs \o chg \o data]
  IN [tx |-> tx0, fee |-> fee, change |-> change,
      \* everything that stands in the way
      why |-> (IF bad THEN {Other} ELSE {}) \cup (IF cs = << >> THEN {5102} ELSE {}) \cup (IF os = << >> THEN {5104} ELSE {})
              \cup (IF BLt(BigDec(s.max), fee) THEN {5107} ELSE {})
              \cup (IF BLt(rest, Big(0)) THEN {5101} ELSE {})
              \cup (IF BLt(change, Big(0)) THEN {5106} ELSE {})
              \cup (IF BLt(Big(0), change) /\ s.change = << >> THEN {5103} ELSE {})
              \cup (IF ~U64(change) /\ BLt(Big(0), change) THEN {Other} ELSE {})
              \cup (IF nokey THEN {5105} ELSE {}) \cup (IF nosign THEN {Other} ELSE {})]
RECURSIVE SignAll(_, _, _)
SignAll(tx, gs, k) ==
  IF k > Len(gs) THEN [ok |-> TRUE, tx |-> tx]
  ELSE LET g == gs[k]
           r == SignInput(tx, k - 1, g.comp, LEDec(g.ht, 4), [j \in 1..Len(g.keys) |-> BigOfBytes(Un(g.keys[j]))] \o << >>)
       IN IF r.ok THEN SignAll(r.tx, gs, k + 1) ELSE NoTx
\* [ok, tx, why]
Build(s) ==
  LET p == Plan(s)
      r == IF p.why # {} THEN NoTx ELSE IF s.sign THEN SignAll(p.tx, CoinsOf(s), 1) ELSE [ok |-> TRUE, tx |-> p.tx]
  IN [ok |-> r.ok, tx |-> r.tx, why |-> p.why, fee |-> p.fee]

Outcome(s, e) ==
  LET b == Build(s)
      full == Report(b.tx, e) @@ [ok |-> TRUE, valid |-> TxOk(b.tx)]
  IN IF b.ok THEN Same(s, e, full)
     ELSE Holds(s, Has(e.r, "ok") /\ ~e.r.ok /\ Has(e.r, "err") /\ e.r.err \in b.why, [ok |-> FALSE, err |-> b.why])
BStep(s, e) ==
  LET a == e.a
      n == Len(s.groups)
      x == [x |-> 0]
      top(t) == Into(t, e, x)
  IN CASE e.op = "coin" -> top([s EXCEPT !.groups[n].coin = <<a>>, !.groups[n].comp = TRUE, !.groups[n].ht = "1"])
       [] e.op = "keys" -> top([s EXCEPT !.groups[n].keys = a.keys])
       [] e.op = "to" -> top([s EXCEPT !.groups[n].to = <<a>>])
       [] e.op = "redeem" -> top([s EXCEPT !.groups[n].red = <<Un(a.b)>>])
       [] e.op = "uncomp" -> top([s EXCEPT !.groups[n].comp = FALSE])
       [] e.op = "ht" -> top([s EXCEPT !.groups[n].ht = a.v])
       [] e.op = "change" -> top([s EXCEPT !.change = <<a>>])
       [] e.op = "fee" -> top([s EXCEPT !.fee = a.v])
       [] e.op = "rate" -> top([s EXCEPT !.rate = a.v])
       [] e.op = "max" -> top([s EXCEPT !.max = a.v])
       [] e.op = "lock" -> top([s EXCEPT !.lock = a.v])
       [] e.op = "push" -> top([s EXCEPT !.push = Append(@, a.b)])
       [] e.op = "sign" -> top([s EXCEPT !.sign = TRUE])
       [] e.op = "then" -> top([s EXCEPT !.groups = Append(@, NewGroup)])
       [] e.op = "build" -> Outcome(s, e)
       [] e.op = "estfees" -> Same(s, e, [v |-> BigToDec(EstFees(BigDec(a.size), BigDec(a.rate)))])
       [] e.op = "estnormal" -> Same(s, e, [v |-> EstNormal(a.ins, a.outs)])
=============================================================================
