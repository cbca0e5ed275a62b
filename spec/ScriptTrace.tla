---------------------------- MODULE ScriptTrace ----------------------------
(* Builders, readers, script numbers and standard scripts of the real code,   *)
(* one event at a time.                                                       *)
EXTENDS Script, TraceRun

SInit(init) == [b |-> << >>, err |-> FALSE, out |-> << >>, p |-> << >>, at |-> 0]

\* ---- text to script
NameSet == {OpName(op) : op \in Supported} \cup {"OP_FALSE", "OP_TRUE", "OP_NOP2", "OP_NOP3"}
NamedOp(t) == CASE t = "OP_FALSE" -> 0 [] t = "OP_TRUE" -> 81 [] t = "OP_NOP2" -> 177 [] t = "OP_NOP3" -> 178
                [] OTHER -> CHOOSE op \in Supported : OpName(op) = t
Digits == 48..57
HexDigits == Digits \cup (97..102) \cup (65..70)
AllIn(b, S) == \A k \in 1..Len(b) : b[k] \in S
IsDec(b) == LET d == IF Len(b) > 0 /\ b[1] \in {43, 45} THEN Tail(b) ELSE b IN Len(d) > 0 /\ AllIn(d, Digits)
DecVal(b) == LET neg == b[1] = 45
                 d == IF b[1] \in {43, 45} THEN Tail(b) ELSE b
                 v == BigDec(BytesToStr(d))
             IN IF neg THEN BSub(Big(0), v) ELSE v
I64Min == BigDec("-9223372036854775808")
I64Max == BigDec("9223372036854775807")
InI64(a) == BLeq(I64Min, a) /\ BLeq(a, I64Max)
Quoted(b) == Len(b) > 2 /\ b[1] = 39 /\ b[Len(b)] = 39
Prefixed(b) == Len(b) >= 2 /\ b[1] = 48 /\ b[2] = 120
\* [ok, b]
Token(t) ==
  LET b == StrToBytes(t) IN
  IF t \in NameSet THEN [ok |-> TRUE, b |-> <<NamedOp(t)>>]
  ELSE IF IsDec(b) /\ InI64(DecVal(b)) THEN [ok |-> TRUE, b |-> PushInt(DecVal(b))]
  ELSE IF Prefixed(b) /\ AllIn(Drop(b, 2), HexDigits) /\ Len(b) % 2 = 0 THEN [ok |-> TRUE, b |-> Un(BytesToStr(Drop(b, 2)))]
  ELSE IF Quoted(b) THEN [ok |-> TRUE, b |-> PushData(Un(BytesToStr(SubSeq(b, 2, Len(b) - 1))))]
  ELSE [ok |-> FALSE, b |-> << >>]
Blank(s) == BytesToStr(LET b == StrToBytes(s) IN [k \in 1..Len(b) |-> IF b[k] \in {9, 10} THEN 32 ELSE b[k]] \o << >>)
Load(s, text) == FoldLeft(LAMBDA acc, t : IF acc.stop THEN acc
                            ELSE LET x == Token(t) IN
                                 IF x.ok THEN [acc EXCEPT !.b = @ \o x.b] ELSE [acc EXCEPT !.stop = TRUE, !.err = TRUE],
                          [b |-> s.b, err |-> s.err, stop |-> FALSE], SplitStr(Blank(text), " "))

InsList(q) == [k \in 1..Len(q.ins) |-> [op |-> q.ins[k].op, d |-> Hx(q.ins[k].data)]] \o << >>

\* ---- unlocking
SignPush(signs) == FlatCat([k \in 1..Len(signs) |-> PushData(Un(signs[k].s))] \o << >>)
Unlock(a) ==
  LET h == Un(a.h)
      redeem == Un(a.redeem)
      n == Len(a.signs)
      single == PushData(Un(a.signs[1].s)) \o PushData(Un(a.signs[1].k))
      sh == (IF n > 0 THEN <<OP0>> \o SignPush(a.signs) ELSE << >>) \o PushData(redeem)
      Fail == [ok |-> FALSE]
  IN CASE a.t = "p2pkh" -> IF n = 0 THEN Fail ELSE [ok |-> TRUE, u |-> Hx(single), w |-> << >>]
       [] a.t = "p2wpkh" -> IF n = 0 THEN Fail ELSE [ok |-> TRUE, u |-> Hx(single), w |-> <<a.signs[1].s, a.signs[1].k>>]
       [] a.t = "p2sh" -> [ok |-> TRUE, u |-> Hx(sh), w |-> << >>]
       [] a.t = "p2wsh" -> IF Sha256(redeem) # h THEN Fail
                           ELSE [ok |-> TRUE, u |-> Hx(sh),
                                 w |-> (IF n > 0 THEN <<"">> \o [k \in 1..n |-> a.signs[k].s] ELSE << >>) \o <<a.redeem>>]
Lock(t, h) == CASE t = "p2pkh" -> P2PKH(h) [] t = "p2sh" -> P2SH(h) [] t = "p2wpkh" -> P2WPKH(h) [] t = "p2wsh" -> P2WSH(h)
\* the script actually run for a locking script, and the code its signatures sign
Final(a) ==
  LET h == Un(a.h) redeem == Un(a.redeem) IN
  CASE a.t = "p2pkh" -> [ok |-> TRUE, s |-> Hx(P2PKH(h)), code |-> ""]
    [] a.t = "p2sh" -> [ok |-> TRUE, s |-> Hx(P2SH(h)), code |-> ""]
    [] a.t = "p2wpkh" -> [ok |-> TRUE, s |-> Hx(P2PKH(h)), code |-> Hx(P2PKH(h))]
    [] a.t = "p2wsh" -> IF Sha256(redeem) # h THEN [ok |-> FALSE]
                        ELSE [ok |-> TRUE, s |-> Hx(P2SH(Hash160(redeem))), code |-> a.redeem]

SStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "data" -> Into([s EXCEPT !.b = @ \o PushData(Un(a.d))], e, [same |-> TRUE])
    [] e.op = "op" -> Into([s EXCEPT !.b = Append(@, a.op)], e, << >>)
    [] e.op = "int" -> Into([s EXCEPT !.b = @ \o PushInt(BigDec(a.v))], e, << >>)
    [] e.op = "load" -> LET x == Load(s, a.s) IN Into([s EXCEPT !.b = x.b, !.err = x.err], e, << >>)
    [] e.op = "reset" -> Into([s EXCEPT !.b = << >>, !.err = FALSE], e, << >>)
    [] e.op = "script" -> Into([s EXCEPT !.out = IF s.err THEN @ ELSE Append(@, Hx(s.b))], e,
                               [ok |-> ~s.err, s |-> IF s.err THEN e.r.s ELSE Hx(s.b), prev |-> s.out])
    [] e.op = "hash160" -> Same(s, e, [ok |-> ~s.err, h |-> Hx(Hash160(s.b))])
    [] e.op = "parse" -> LET q == Parse(Un(a.p)) IN
                         Same(s, e, IF q.ok THEN [ok |-> TRUE, ins |-> InsList(q), same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE])
    [] e.op = "open" -> Into([s EXCEPT !.p = Un(a.p), !.at = 0], e, << >>)
    [] e.op = "next" -> LET i == ReadInstr(s.p, s.at) IN
                        IF i.k # "ok" THEN Same(s, e, [k |-> i.k])
                        ELSE LET rest == Drop(s.p, i.next)
                             IN Into([s EXCEPT !.at = i.next], e,
                                     [k |-> "ok", op |-> i.op, d |-> Hx(i.data), rest |-> IF Parses(rest) THEN Disasm(rest) ELSE e.r.rest])
    [] e.op = "disasm" -> LET p == Un(a.p) IN Holds(s, Parses(p) => e.r.s = Disasm(p), "disassembly")
    [] e.op = "remove" -> Same(s, e, [s |-> Hx(RemoveOp(Un(a.p), a.op)), same |-> TRUE])
    [] e.op = "numenc" -> LET v == BigDec(a.v)
                              lo == BigDec("-2147483648")
                              hi == BigDec("2147483647")
                          IN Same(s, e, [b |-> Hx(NumEncode(v)), i32 |-> BigToDec(IF BLt(v, lo) THEN lo ELSE IF BLt(hi, v) THEN hi ELSE v)])
    [] e.op = "numdec" -> LET b == Un(a.b) IN
                          IF ~NumOk(b, a.max) THEN Same(s, e, [ok |-> FALSE])
                          ELSE IF ~InI64(NumDecode(b)) THEN Holds(s, TRUE, "any")
                          ELSE Same(s, e, [ok |-> TRUE, v |-> BigToDec(NumDecode(b))])
    [] e.op = "tmpl" -> LET l == Hx(Lock(a.t, Un(a.h))) IN
                        Same(s, e, [ok |-> TRUE, s |-> l, ver |-> IF a.t \in {"p2wpkh", "p2wsh"} THEN "v0" ELSE "base",
                                    addr |-> a.t, addrscript |-> l, addrhash |-> a.h])
    [] e.op = "final" -> Same(s, e, Final(a))
    [] e.op = "unlock" -> Same(s, e, Unlock(a))
    [] e.op = "multisig" -> LET keys == [k \in 1..Len(a.keys) |-> Un(a.keys[k])] \o << >>
                                b == MultiSig(a.m, keys)
                            IN IF a.m > Len(keys) THEN Same(s, e, [ok |-> FALSE])
                               ELSE Same(s, e, [ok |-> TRUE, s |-> Hx(b), g |-> Hx(b), h160 |-> Hx(Hash160(b)), h256 |-> Hx(Sha256(b))])
    [] e.op = "classify" -> LET c == Classify(Un(a.p)) IN
                            Same(s, e, IF c.t \in {"err", "unknown"} THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> c.t, h |-> Hx(c.hash)])
=============================================================================
