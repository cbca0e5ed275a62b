--------------------------------- MODULE Tx ---------------------------------
(* Transactions: wire form, identifiers, sizes, signature hashes, signing,     *)
(* attaching the outputs an input spends, and verification.                    *)
(*                                                                            *)
(* tx = [ver, lock (4 bytes each, little endian), ins, outs];                  *)
(* outs are [val (8 bytes), s]; ins are [hash, idx, seq, val, sig, wit, t, h,  *)
(* red]: outpoint, sequence, value of the output spent, unlocking script,      *)
(* witness, type and hash of the output spent ("none": unknown), redeem script *)
(* (a sequence of none or one).                                                *)
EXTENDS VM, Ecdsa

Has(r, f) == f \in DOMAIN r
Ff(n) == Rep(255, n)
EmptyTx == [ver |-> <<1, 0, 0, 0>>, lock |-> Rep(0, 4), ins |-> << >>, outs |-> << >>]
BareIn(hash, idx, sig, seq) == [hash |-> hash, idx |-> idx, seq |-> seq, val |-> Rep(0, 8), sig |-> sig, wit |-> << >>, t |-> "none", h |-> << >>, red |-> << >>]
Segwit(in) == in.t \in {"p2wpkh", "p2wsh"}
RedB(in) == IF in.red = << >> THEN << >> ELSE in.red[1]

(* ---- wire form ---- *)
MapCat(Op(_), s) == FlatCat([k \in 1..Len(s) |-> Op(s[k])] \o << >>)
HasWit(tx) == \E k \in 1..Len(tx.ins) : tx.ins[k].wit # << >>
InBytes(in) == in.hash \o in.idx \o VarBytes(IF Segwit(in) THEN << >> ELSE in.sig) \o in.seq
OutBytes(o) == o.val \o VarBytes(o.s)
Body(tx) == VarInt(Len(tx.ins)) \o MapCat(InBytes, tx.ins) \o VarInt(Len(tx.outs)) \o MapCat(OutBytes, tx.outs)
WitBytes(in) == VarInt(Len(in.wit)) \o MapCat(VarBytes, in.wit)
SerStrip(tx) == tx.ver \o Body(tx) \o tx.lock
SerFull(tx) == IF HasWit(tx) THEN tx.ver \o <<0, 1>> \o Body(tx) \o MapCat(WitBytes, tx.ins) \o tx.lock ELSE SerStrip(tx)
TxHash(tx) == Hash256(SerStrip(tx))
WTxHash(tx) == Hash256(SerFull(tx))
IdOf(h) == Hx(Reverse(h))
BaseSize(tx) == Len(SerStrip(tx))
TotalSize(tx) == Len(SerFull(tx))
Weight(tx) == 3 * BaseSize(tx) + TotalSize(tx)
Vsize(tx) == (Weight(tx) + 3) \div 4
SumOf(s) == FoldLeft(LAMBDA acc, v : BAdd(acc, BigOfLE(v)), Big(0), s)
Vals(s) == [k \in 1..Len(s) |-> s[k].val] \o << >>
FeesOf(tx) == BSub(SumOf(Vals(tx.ins)), SumOf(Vals(tx.outs)))
Int64(v) == BBitLen(v) < 64          \* fits a signed 64-bit number

RECURSIVE RdMany(_, _, _, _, _)
\* n items read by Rd(p, at) -> [ok, v, at]
RdMany(Rd(_, _), p, at, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> acc, at |-> at]
  ELSE LET r == Rd(p, at) IN IF r.ok THEN RdMany(Rd, p, r.at, n - 1, Append(acc, r.v)) ELSE RdFail
\* a count, then that many items
RdList(Rd(_, _), p, at) ==
  LET c == RdVarInt(p, at) IN
  IF ~c.ok THEN RdFail
  ELSE LET n == FitLen(p, c.at, c.v) IN IF n < 0 THEN RdFail ELSE RdMany(Rd, p, c.at, n, << >>)
RdIn(p, at) ==
  LET a == RdBytes(p, at, 36)
      b == RdVarBytes(p, a.at)
      c == RdBytes(p, b.at, 4)
  IN IF ~a.ok THEN RdFail ELSE IF ~b.ok THEN RdFail ELSE IF ~c.ok THEN RdFail
     ELSE [ok |-> TRUE, at |-> c.at, v |-> BareIn(SubSeq(a.v, 1, 32), SubSeq(a.v, 33, 36), b.v, c.v)]
RdOut(p, at) ==
  LET a == RdBytes(p, at, 8)
      b == RdVarBytes(p, a.at)
  IN IF ~a.ok THEN RdFail ELSE IF ~b.ok THEN RdFail ELSE [ok |-> TRUE, at |-> b.at, v |-> [val |-> a.v, s |-> b.v]]
RdItems(p, at) == RdList(RdVarBytes, p, at)
NoTx == [ok |-> FALSE, tx |-> EmptyTx]
\* everything after the version (and marker and flag)
ReadTx(p, at, wit) ==
  LET i == RdList(RdIn, p, at)
      o == RdList(RdOut, p, i.at)
      w == IF wit THEN RdMany(RdItems, p, o.at, Len(i.v), << >>) ELSE [ok |-> TRUE, v |-> << >>, at |-> o.at]
      l == RdBytes(p, w.at, 4)
  IN IF ~i.ok THEN NoTx ELSE IF ~o.ok THEN NoTx ELSE IF ~w.ok THEN NoTx ELSE IF ~l.ok THEN NoTx
     ELSE [ok |-> TRUE,
           tx |-> [ver |-> SubSeq(p, 1, 4), lock |-> l.v, outs |-> o.v,
                   ins |-> IF wit THEN [k \in 1..Len(i.v) |-> [i.v[k] EXCEPT !.wit = w.v[k]]] \o << >> ELSE i.v]]
ParseStrip(p) == IF Len(p) < 5 THEN NoTx ELSE ReadTx(p, 4, FALSE)
ParseFull(p) == IF Len(p) < 5 THEN NoTx
                ELSE IF p[5] # 0 THEN ParseStrip(p)
                ELSE IF Len(p) < 6 THEN NoTx
                ELSE IF p[6] # 1 THEN NoTx
                ELSE ReadTx(p, 6, TRUE)

(* ---- what an input spends ---- *)
\* knows that input in spends an output (script, value) with this redeem script: [ok, in]
Spend(in, val, script, red) ==
  LET c == Classify(script)
      r == IF red = << >> THEN << >> ELSE red[1]
  IN IF c.t \in {"err", "unknown"} THEN [ok |-> FALSE]
     ELSE IF c.t = "p2wsh" /\ Sha256(r) # c.hash THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, in |-> [in EXCEPT !.val = val, !.t = c.t, !.h = c.hash, !.red = red]]
\* the script the input's unlocking script is run against
FinalLock(in) == CASE in.t \in {"p2pkh", "p2wpkh"} -> P2PKH(in.h)
                   [] in.t = "p2sh" -> P2SH(in.h)
                   [] in.t = "p2wsh" -> P2SH(Hash160(RedB(in)))
                   [] OTHER -> << >>
WitCode(in) == CASE in.t = "p2wpkh" -> P2PKH(in.h) [] in.t = "p2wsh" -> RedB(in) [] OTHER -> << >>
\* attaching: the witness, if any, becomes the unlocking script; [ok, in]
Attach(in, val, script, red) ==
  LET s == Spend(in, val, script, red)
      n == Len(in.wit)
  IN IF ~s.ok THEN s
     ELSE IF s.in.t = "p2wpkh" /\ n \notin {0, 2} THEN [ok |-> FALSE]
     ELSE IF Segwit(s.in) THEN [ok |-> TRUE, in |-> [s.in EXCEPT !.sig = MapCat(PushData, in.wit)]]
     ELSE s

(* ---- signature hashes ---- *)
\* ht: the hash type, 4 bytes
BaseType(ht) == ht[1] % 32
AnyOne(ht) == ht[1] >= 128
TNone == 2
TSingle == 3
LegacyCode(in) == IF in.red # << >> /\ in.t \in {"p2sh", "p2wsh"} THEN RedB(in) ELSE RemoveOp(FinalLock(in), 171)
OneHash == <<1>> \o Rep(0, 31)
\* the legacy signature hash of input i (0-based)
RawHash(tx, i, ht) ==
  LET bt == BaseType(ht)
      n == Len(tx.ins)
      \* the transaction that is hashed
      slim(k) == LET in == tx.ins[k] IN
                 in.hash \o in.idx \o VarBytes(IF k = i + 1 THEN LegacyCode(in) ELSE << >>)
                 \o (IF k # i + 1 /\ bt \in {TNone, TSingle} THEN Rep(0, 4) ELSE in.seq)
      ins == IF AnyOne(ht) THEN VarInt(1) \o slim(i + 1) ELSE VarInt(n) \o FlatCat([k \in 1..n |-> slim(k)] \o << >>)
      outs == CASE bt = TNone -> VarInt(0)
                [] bt = TSingle -> VarInt(i + 1) \o FlatCat([k \in 1..i |-> Ff(8) \o <<0>>] \o << >>) \o OutBytes(tx.outs[i + 1])
                [] OTHER -> VarInt(Len(tx.outs)) \o MapCat(OutBytes, tx.outs)
  IN IF i < 0 \/ i >= n \/ (bt = TSingle /\ i >= Len(tx.outs)) THEN OneHash
     ELSE Hash256(tx.ver \o ins \o outs \o tx.lock \o ht)
\* BIP143, for an existing input i
WitHash(tx, i, ht) ==
  LET bt == BaseType(ht)
      in == tx.ins[i + 1]
      OutPoint(x) == x.hash \o x.idx
      SeqNo(x) == x.seq
      some == bt \in {TNone, TSingle}
      prevouts == IF AnyOne(ht) THEN Rep(0, 32) ELSE Hash256(MapCat(OutPoint, tx.ins))
      seqs == IF AnyOne(ht) \/ some THEN Rep(0, 32) ELSE Hash256(MapCat(SeqNo, tx.ins))
      outs == IF ~some THEN Hash256(MapCat(OutBytes, tx.outs))
              ELSE IF bt = TSingle /\ i < Len(tx.outs) THEN Hash256(OutBytes(tx.outs[i + 1]))
              ELSE Rep(0, 32)
  IN Hash256(tx.ver \o prevouts \o seqs \o OutPoint(in) \o VarBytes(WitCode(in)) \o in.val \o in.seq \o outs \o tx.lock \o ht)
HashFor(tx, i, ht) == IF Segwit(tx.ins[i + 1]) THEN WitHash(tx, i, ht) ELSE RawHash(tx, i, ht)

(* ---- signing ---- *)
SignMemo(d, h) == LET k == JoinStr(<<"sg", Hx(X32(d)), Hx(h)>>, ":") IN
                  IF MemoHas(k) THEN MemoGet(k) ELSE MemoPut(k, LET s == EcdsaSign(d, h) IN Der(s.r, s.s))
SigOf(d, h, ht) == Append(SignMemo(d, h), ht[1])
\* unlocking script and witness made of signatures [k |-> key, s |-> signature]; [ok, sig, wit]
Unlocking(in, signs) ==
  LET n == Len(signs)
      single == PushData(signs[1].s) \o PushData(signs[1].k)
      Sig(x) == x.s
      SigPush(x) == PushData(x.s)
      multi == (IF n > 0 THEN <<OP0>> \o MapCat(SigPush, signs) ELSE << >>) \o PushData(RedB(in))
      items == (IF n > 0 THEN << << >> >> \o ([k \in 1..n |-> signs[k].s] \o << >>) ELSE << >>) \o <<RedB(in)>>
      no == [ok |-> FALSE]
  IN IF n > 1 /\ in.red = << >> THEN no
     ELSE CASE in.t = "p2pkh" -> IF n = 0 THEN no ELSE [ok |-> TRUE, sig |-> single, wit |-> << >>]
            [] in.t = "p2wpkh" -> IF n = 0 THEN no ELSE [ok |-> TRUE, sig |-> single, wit |-> <<signs[1].s, signs[1].k>>]
            [] in.t = "p2sh" -> [ok |-> TRUE, sig |-> multi, wit |-> << >>]
            [] in.t = "p2wsh" -> [ok |-> TRUE, sig |-> multi, wit |-> items]
            [] OTHER -> no
Embed(tx, i, signs) ==
  IF i < 0 \/ i >= Len(tx.ins) THEN NoTx
  ELSE LET u == Unlocking(tx.ins[i + 1], signs) IN
       IF ~u.ok THEN NoTx
       ELSE [ok |-> TRUE, tx |-> [tx EXCEPT !.ins[i + 1].sig = u.sig, !.ins[i + 1].wit = u.wit]]
KeyBytes(d, comp) == IF comp THEN Enc33(PBase(d)) ELSE Enc65(PBase(d))
SignInput(tx, i, comp, ht, ds) ==
  IF i < 0 \/ i >= Len(tx.ins) THEN NoTx
  ELSE LET h == HashFor(tx, i, ht) IN
       Embed(tx, i, [k \in 1..Len(ds) |-> [k |-> KeyBytes(ds[k], comp), s |-> SigOf(ds[k], h, ht)]] \o << >>)

(* ---- verification ---- *)
\* env = [mode |-> "tx", tx, i, n]: the hash is that of input i
TxSigHash(env, t) == [ok |-> TRUE, h |-> HashFor(env.tx, env.i, <<t, 0, 0, 0>>)]
TxSigValid(env, h, sig, key) ==
  LET k == JoinStr(<<"sv", Hx(h), Hx(sig), Hx(key)>>, ":")
      q == DecPub(key)
  IN IF MemoHas(k) THEN MemoGet(k) ELSE MemoPut(k, q.ok /\ EcdsaVerify(q.p, h, sig))
Env(tx, i) == [mode |-> "tx", tx |-> tx, i |-> i]
InputOk(tx, i) == tx.ins[i + 1].t # "none" /\ VerifyOk(Env(tx, i), tx.ins[i + 1].sig, FinalLock(tx.ins[i + 1]))
TxOk(tx) == \A i \in 0..(Len(tx.ins) - 1) : InputOk(tx, i)
=============================================================================
