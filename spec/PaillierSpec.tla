---------------------------- MODULE PaillierSpec ----------------------------
(* What is inside every ciphertext of a session.  keys: the moduli; h: the    *)
(* ciphertexts made so far, [ok, k: key, c: number, m: plaintext].            *)
EXTENDS Paillier, StepLib
AInit(init) == [keys |-> << >>, h |-> << >>]
ModelKey == Big(35)
Has(r, f) == f \in DOMAIN r
\* a plaintext argument: missing, or k * n + o
PlainOf(x, n) == BAdd(BMul(Big(x.k), n), BigDec(x.o))
\* a ciphertext argument for key k: [nil, v: number, known, m]
Known(v, m) == [nil |-> FALSE, v |-> v, known |-> TRUE, m |-> m]
CtOf(s, x, k) ==
  LET n == s.keys[k]
      nn == BMul(n, n)
      h == s.h[x.i]
      of(v) == IF h.k = k THEN Known(v, h.m) ELSE [nil |-> FALSE, v |-> v, known |-> FALSE, m |-> Zero]
  IN CASE x.t = "h" -> IF h.ok THEN of(h.c) ELSE [nil |-> TRUE]
       [] x.t = "over" -> IF h.ok THEN of(BAdd(h.c, nn)) ELSE [nil |-> TRUE]
       [] x.t = "under" -> IF h.ok THEN of(BSub(h.c, nn)) ELSE [nil |-> TRUE]
       [] x.t = "nil" -> [nil |-> TRUE]
       [] x.t = "zero" -> Known(Zero, Zero)
       [] x.t = "neg" -> Known(Big(-1), Zero)
       [] x.t = "one" -> Known(One, Zero)
       [] x.t = "nn" -> Known(nn, Zero)
       [] x.t = "nn1" -> Known(BSub(nn, One), Zero)
       [] x.t = "n" -> Known(n, Zero)
       [] x.t = "g" -> Known(BAdd(n, One), One)
       [] x.t = "raw" -> [nil |-> FALSE, v |-> BigDec(x.v), known |-> FALSE, m |-> Zero]
\* in the model a handle's number is not chosen: it is a ciphertext
Abstract(s, k) == s.keys[k] = ModelKey
Valid(s, x, k) == LET c == CtOf(s, x, k) IN
                  IF c.nil THEN FALSE
                  ELSE IF Abstract(s, k) /\ x.t \in {"h", "over", "under"} THEN x.t = "h"
                  ELSE PIsCt(c.v, s.keys[k])
Decryptable(s, x, k) == LET c == CtOf(s, x, k) IN
                        IF c.nil THEN FALSE
                        ELSE IF Abstract(s, k) /\ x.t \in {"h", "over", "under"} THEN x.t # "under"
                        ELSE BLt(Zero, c.v) /\ PCoprime(c.v, s.keys[k])
PlainIn(s, x, k) == LET c == CtOf(s, x, k)
                        n == s.keys[k]
                    IN IF c.nil THEN [known |-> FALSE, m |-> Zero]
                       ELSE IF c.known THEN [known |-> TRUE, m |-> c.m]
                       ELSE IF PSmall(n) /\ PCoprime(c.v, n) THEN [known |-> TRUE, m |-> PDec(BMod(c.v, BMul(n, n)), n)]
                       ELSE [known |-> FALSE, m |-> Zero]
Bad == [ok |-> FALSE, same |-> TRUE]
\* a new ciphertext holding m (if known): the number is a ciphertext that decrypts to m
Made(s, e, k, ok, p, fresh) ==
  LET n == s.keys[k]
      c == IF Has(e.r, "c") THEN BigDec(e.r.c) ELSE Zero
      h == [ok |-> ok, k |-> k, c |-> c, m |-> IF p.known THEN p.m ELSE IF Has(e.r, "m") THEN BigDec(e.r.m) ELSE Zero]
      exp == [ok |-> TRUE, m |-> BigToDec(h.m), same |-> TRUE]
      st2 == [s EXCEPT !.h = Append(@, h)]
  IN IF ~ok THEN Holds(st2, e.r = Bad, Bad)
     ELSE IF ~Has(e.r, "c") THEN Holds(st2, FALSE, exp)
     ELSE Holds(st2, /\ e.r.ok /\ e.r.same /\ e.r.m = exp.m /\ PInPlain(h.m, n) /\ PIsCt(c, n)
                     /\ PSmall(n) => PDec(c, n) = h.m
                     /\ fresh /\ BLt(BShl(One, 100), n) => \A j \in 1..Len(s.h) : s.h[j].c # c, exp)
PStep(s, e) ==
  LET a == e.a
      k == a.k
      n == s.keys[k]
      x == PlainIn(s, a.c, k)
      y == PlainIn(s, a.d, k)
      v == PlainOf(a.m, n)
  IN CASE e.op = "gen" ->
            LET m == IF Has(e.r, "n") THEN BigDec(e.r.n) ELSE ModelKey
                b == 2 * (a.bits \div 2)
            IN IF a.bits < 10 THEN Holds(s, e.r = [ok |-> FALSE], [ok |-> FALSE])
               ELSE Holds([s EXCEPT !.keys = Append(@, m)],
                          /\ Has(e.r, "n") /\ e.r.ok
                          /\ BBitLen(m) \in {b - 1, b} /\ PKeyOk(m) /\ e.r.nn = BigToDec(BMul(m, m)) /\ e.r.g = BigToDec(BAdd(m, One)), [ok |-> TRUE])
       [] e.op = "enc" -> LET ok == ~a.m.nil /\ PInPlain(v, n) IN Made(s, e, k, ok, [known |-> TRUE, m |-> v], TRUE)
       [] e.op = "dec" -> IF ~Decryptable(s, a.c, k) THEN Holds(s, e.r = Bad, Bad)
                          ELSE LET exp == [ok |-> TRUE, m |-> IF x.known THEN BigToDec(x.m) ELSE "a plaintext", same |-> TRUE]
                               IN Holds(s, Has(e.r, "m") /\ e.r.ok /\ e.r.same /\ PInPlain(BigDec(e.r.m), n) /\ (x.known => e.r.m = exp.m), exp)
       [] e.op = "add" -> LET ok == Valid(s, a.c, k) /\ Valid(s, a.d, k) IN
                          Made(s, e, k, ok, IF ok THEN [known |-> x.known /\ y.known, m |-> BAddMod(x.m, y.m, n)] ELSE x, FALSE)
       [] e.op = "sub" -> LET ok == Valid(s, a.c, k) /\ Valid(s, a.d, k) IN
                          Made(s, e, k, ok, IF ok THEN [known |-> x.known /\ y.known, m |-> BSubMod(x.m, y.m, n)] ELSE x, FALSE)
       [] e.op = "addp" -> LET ok == Valid(s, a.c, k) /\ ~a.m.nil IN
                           Made(s, e, k, ok, IF ok THEN [known |-> x.known, m |-> BMod(BAdd(x.m, v), n)] ELSE x, FALSE)
       [] e.op = "mulp" -> LET ok == Valid(s, a.c, k) /\ ~a.m.nil IN
                           Made(s, e, k, ok, IF ok THEN [known |-> x.known, m |-> BMod(BMul(x.m, v), n)] ELSE x, FALSE)
       [] e.op = "divp" -> LET ok == Valid(s, a.c, k) /\ ~a.m.nil /\ (~a.m.nil => PCoprime(BMod(v, n), n)) IN
                           Made(s, e, k, ok, IF ok THEN [known |-> x.known, m |-> BMulMod(x.m, BModInv(BMod(v, n), n), n)] ELSE x, FALSE)
=============================================================================
