-------------------------------- MODULE Mpc --------------------------------
(* Two-party ECDSA: the key is the product of the parties' keys, the nonce    *)
(* the product of their nonces; each encrypts its key for the other, who      *)
(* computes (z + r d1 d2) / k inside the encryption.  In the adaptor variant  *)
(* Bob also puts his secret t into the nonce and takes it out of his half.    *)
(* Party 1 and 2; encs and cts are the ciphertexts handed over so far, with   *)
(* the plaintext they hold (numbers far below any Paillier modulus).          *)
EXTENDS Ecdsa, StepLib
NoPt == << >>
Party(d, t) == [d |-> d, t |-> t, k |-> Zero, hash |-> << >>, enc |-> 0, R |-> NoPt, sh |-> NoPt, ct |-> 0, joint |-> NoPt, done |-> {},
                s |-> Zero, known |-> FALSE, sig |-> << >>]
MpcInit(init) ==
  [kind |-> init.kind, encs |-> << >>, cts |-> << >>,
   pt |-> << Party(BigOfBytes(Un(init.d1)), Big(1)), Party(BigOfBytes(Un(init.d2)), IF init.kind = "adaptor" THEN BigOfBytes(Un(init.t)) ELSE Big(1)) >>]
Joint(s) == PBase(BMulMod(s.pt[1].d, s.pt[2].d, CN))
Z(h) == HashInt(h)
Has(r, f) == f \in DOMAIN r
ShowPt(p) == Hx(Enc65(p))
\* the point an argument names: own or the other's nonce point, the shared point, or spelled out
PtOf(x) == DecPub(Un(x)).p
SigOf(r, s) == IF LowS(s) = Zero THEN << >> ELSE Der(r[1], LowS(s))
\* what a party makes of the ciphertext it is given: the plaintext, if it was made for its present Paillier key
Opened(s, p, c) == LET me == s.pt[p] IN
                   IF c.ok /\ c.enc = me.enc /\ me.enc # 0
                   THEN [known |-> TRUE, v |-> BMulMod(BMulMod(c.v, BModInv(me.k, CN), CN), BModInv(me.t, CN), CN)]
                   ELSE [known |-> FALSE, v |-> Zero]
MpcStep(s, e) ==
  LET a == e.a
      p == a.p
      me == s.pt[p]
      upd(f) == [s EXCEPT !.pt[p] = f, !.pt[p].done = @ \cup {e.op}]
  IN CASE e.op = "p1" -> LET J == PMul(me.d, PtOf(a.pub))
                         IN Into(upd([me EXCEPT !.joint = J]), e, [ok |-> TRUE, pub |-> Hx(Enc33(J)), same |-> TRUE])
       [] e.op = "p2" ->     \* the nonce point; the key is now in encryption number Len(encs)+1
            LET h == Un(a.hash)
                k == Nonce(me.d, h)
                R == PMul(me.t, PBase(k))
                s1 == upd([me EXCEPT !.k = k, !.hash = h, !.enc = Len(s.encs) + 1, !.R = R])
                exp == [ok |-> TRUE, r |-> ShowPt(R), same |-> TRUE]
            IN Into([s1 EXCEPT !.encs = Append(@, [of |-> p, d |-> me.d])], e, exp)
       [] e.op = "p3" ->
            LET S == PMul(me.t, PMul(me.k, PtOf(a.r)))
            IN Into(upd([me EXCEPT !.sh = S]), e, [ok |-> TRUE, r |-> ShowPt(S), same |-> TRUE])
       [] e.op = "p4" ->
            LET x == s.encs[a.enc]
                v == BMul(BAdd(BMul(BMul(x.d, me.d), PtOf(a.r)[1]), Z(me.hash)), BModInv(me.k, CN))
                s1 == upd([me EXCEPT !.ct = Len(s.cts) + 1])
            IN Into([s1 EXCEPT !.cts = Append(@, [ok |-> TRUE, enc |-> a.enc, v |-> v])], e, [ok |-> TRUE, same |-> TRUE])
       [] e.op = "mut" ->    \* somebody on the way adds one to what is encrypted
            LET c == s.cts[a.ct] IN
            Into([s EXCEPT !.cts = Append(@, [c EXCEPT !.v = BAdd(@, One)])], e, [ok |-> TRUE])
       [] e.op = "p5" ->
            LET o == Opened(s, p, s.cts[a.ct])
                r == PtOf(a.r)
            IN IF s.kind = "ecdsa"
               THEN LET g == SigOf(r, o.v)
                        exp == IF ~o.known THEN [ok |-> TRUE, sig |-> "no signature under the joint key", same |-> TRUE]
                               ELSE IF g = << >> THEN [ok |-> FALSE, same |-> TRUE]
                               ELSE [ok |-> TRUE, sig |-> Hx(g), same |-> TRUE]
                        got == IF Has(e.r, "sig") THEN Un(e.r.sig) ELSE IF o.known THEN g ELSE << >>
                    IN Holds(upd([me EXCEPT !.sig = got, !.known = o.known]),
                             IF o.known THEN e.r = exp
                             ELSE Has(e.r, "ok") => e.r.same /\ (e.r.ok => ~EcdsaVerify(Joint(s), me.hash, got)), exp)
               ELSE LET exp == [ok |-> TRUE, s |-> IF o.known THEN BigToDec(o.v) ELSE "some number", same |-> TRUE]
                        got == IF Has(e.r, "s") THEN BigDec(e.r.s) ELSE o.v
                    IN Holds(upd([me EXCEPT !.s = got, !.known = o.known]),
                             IF o.known THEN e.r = exp
                             ELSE Has(e.r, "ok") => e.r.same /\ (e.r.ok => ~EcdsaVerify(Joint(s), me.hash, SigOf(r, got))), exp)
       [] e.op = "p6a" ->    \* Alice: the secret from the two halves
            LET x == BAddMod(s.pt[1].s, Big(a.add), CN)
                y == s.pt[2].s
            IN Same(s, e, IF BMod(y, CN) = Zero THEN [ok |-> FALSE, same |-> TRUE] ELSE [ok |-> TRUE, t |-> BigToDec(BMulMod(x, BModInv(y, CN), CN)), same |-> TRUE])
       [] e.op = "p6b" ->    \* Bob: the signature
            LET v == BAddMod(me.s, Big(a.add), CN)
                g == SigOf(PtOf(a.r), v)
            IN IF g = << >> THEN Same(s, e, [ok |-> FALSE, same |-> TRUE])
               ELSE Into(upd([me EXCEPT !.sig = g]), e, [ok |-> TRUE, sig |-> Hx(g), same |-> TRUE])
       [] e.op = "verify" ->     \* a party's signature under the joint key
            Same(s, e, [ok |-> EcdsaVerify(Joint(s), Un(a.hash), me.sig)])
       [] e.op = "close" -> Same(s, e, [same |-> TRUE])     \* nothing handed out changes
=============================================================================
