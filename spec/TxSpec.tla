------------------------------- MODULE TxSpec -------------------------------
(* One transaction object and every operation on it.                          *)
EXTENDS Tx, StepLib
TInit(init) == [tx |-> EmptyTx]
Red(a) == IF Has(a, "redeem") THEN <<Un(a.redeem)>> ELSE << >>
Report(tx, e) ==
  [full |-> Hx(SerFull(tx)), strip |-> Hx(SerStrip(tx)), id |-> IdOf(TxHash(tx)), wid |-> IdOf(WTxHash(tx)),
   h |-> Hx(TxHash(tx)), wh |-> Hx(WTxHash(tx)), has |-> HasWit(tx),
   base |-> BaseSize(tx), wit |-> TotalSize(tx) - BaseSize(tx), size |-> TotalSize(tx), weight |-> Weight(tx), vsize |-> Vsize(tx),
   fees |-> IF Int64(FeesOf(tx)) THEN BigToDec(FeesOf(tx)) ELSE IF Has(e.r, "fees") THEN e.r.fees ELSE "?"]
TStep(s, e) ==
  LET a == e.a
      tx == s.tx
      put(t, x) == Into([s EXCEPT !.tx = t], e, x)
      \* done, or refused with nothing changed
      try(r) == IF r.ok THEN put(r.tx, [ok |-> TRUE]) ELSE Same(s, e, [ok |-> FALSE])
      there == a.i >= 0 /\ a.i < Len(tx.ins)
      ht == LEDec(a.ht, 4)
  IN CASE e.op = "ver" -> put([tx EXCEPT !.ver = LEDec(a.v, 4)], [x |-> 0])
       [] e.op = "lock" -> put([tx EXCEPT !.lock = LEDec(a.v, 4)], [x |-> 0])
       [] e.op = "in" -> LET r == Spend(BareIn(Un(a.h), LEDec(a.n, 4), << >>, LEDec(a.seq, 4)), LEDec(a.v, 8), Un(a.script), Red(a)) IN
                         IF r.ok THEN put([tx EXCEPT !.ins = Append(@, r.in)], [ok |-> TRUE, lock |-> a.script, final |-> Hx(FinalLock(r.in)), code |-> Hx(WitCode(r.in)), segwit |-> Segwit(r.in)])
                         ELSE Same(s, e, [ok |-> FALSE])
       [] e.op = "out" -> put([tx EXCEPT !.outs = Append(@, [val |-> LEDec(a.v, 8), s |-> Un(a.s)])], [x |-> 0])
       [] e.op = "setin" -> put([tx EXCEPT !.ins[a.i + 1] = [@ EXCEPT !.hash = Un(a.h), !.idx = LEDec(a.n, 4), !.seq = LEDec(a.seq, 4), !.val = LEDec(a.v, 8)]], [x |-> 0])
       [] e.op = "setout" -> put([tx EXCEPT !.outs[a.i + 1] = [val |-> LEDec(a.v, 8), s |-> Un(a.s)]], [x |-> 0])
       [] e.op = "ser" -> Same(s, e, Report(tx, e))
       [] e.op = "load" -> LET b == Un(a.b)
                               r == IF a.strip THEN ParseStrip(b) ELSE ParseFull(b)
                               \* bytes no transaction serialises to (padded numbers, something behind, needless marker): either way
                               exact == r.ok /\ (IF a.strip THEN SerStrip(r.tx) ELSE SerFull(r.tx)) = b
                               ok == IF r.ok /\ ~exact /\ Has(e.r, "ok") THEN e.r.ok ELSE r.ok
                           IN IF ok THEN put(r.tx, [ok |-> TRUE]) ELSE Into([s EXCEPT !.tx = IF a.reuse THEN EmptyTx ELSE tx], e, [ok |-> FALSE])
       [] e.op = "attach" -> IF ~there THEN Same(s, e, [ok |-> FALSE])
                             ELSE LET r == Attach(tx.ins[a.i + 1], LEDec(a.v, 8), Un(a.script), Red(a)) IN
                                  IF r.ok THEN put([tx EXCEPT !.ins[a.i + 1] = r.in], [ok |-> TRUE]) ELSE Same(s, e, [ok |-> FALSE])
       [] e.op = "sign" -> try(SignInput(tx, a.i, a.comp, ht, [k \in 1..Len(a.keys) |-> BigOfBytes(Un(a.keys[k]))] \o << >>))
       [] e.op = "embed" -> try(Embed(tx, a.i, [k \in 1..Len(a.signs) |-> [k |-> Un(a.signs[k].k), s |-> Un(a.signs[k].s)]] \o << >>))
       [] e.op = "embedsig" -> try(Embed(tx, a.i, <<[k |-> KeyBytes(BigOfBytes(Un(a.key)), TRUE), s |-> Append(Un(a.sig), ht[1])]>>))
       [] e.op = "rawhash" -> Same(s, e, [h |-> Hx(RawHash(tx, a.i, ht))])
       [] e.op = "withash" -> Same(s, e, [h |-> Hx(WitHash(tx, a.i, ht))])
       [] e.op = "rawsig" -> Same(s, e, IF there THEN [ok |-> TRUE, s |-> Hx(SigOf(BigOfBytes(Un(a.key)), RawHash(tx, a.i, ht), ht))] ELSE [ok |-> FALSE])
       [] e.op = "witsig" -> Same(s, e, IF ~there THEN [ok |-> FALSE]
                                        ELSE IF ~Segwit(tx.ins[a.i + 1]) THEN [ok |-> FALSE]
                                        ELSE [ok |-> TRUE, s |-> Hx(SigOf(BigOfBytes(Un(a.key)), WitHash(tx, a.i, ht), ht))])
       [] e.op = "verify" -> Same(s, e, [ok |-> TxOk(tx)])
       [] e.op = "text" -> Same(s, e, [x |-> 0])
=============================================================================
