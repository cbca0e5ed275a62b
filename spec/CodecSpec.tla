----------------------------- MODULE CodecSpec -----------------------------
(* A buffer written and read in any sequence, a running RIPEMD-160, and the   *)
(* codecs, as seen through the exported calls.                                *)
EXTENDS Codec, StepLib

CInit(init) == [d |-> Un(init.d), at |-> 0, outs |-> << >>, src |-> init.d, rip |-> << >>]

Wr(s, e, b) == LET t == [s EXCEPT !.d = @ \o b] IN Into(t, e, [len |-> Len(t.d), seek |-> t.at])
\* a read: the reading r = [ok, v, at], shown by val
Rd(s, e, r, val) == IF r.ok THEN Into([s EXCEPT !.at = r.at], e, [ok |-> TRUE, v |-> val, seek |-> r.at])
                    ELSE Same(s, e, [ok |-> FALSE, seek |-> s.at])
RdNum(s, e, n) == LET r == RdLE(s.d, s.at, n) IN Rd(s, e, r, IF r.ok THEN BigToDec(r.v) ELSE "")

CStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "w8" -> Wr(s, e, LEDec(a.v, 1))
    [] e.op = "w16" -> Wr(s, e, LEDec(a.v, 2))
    [] e.op = "w32" -> Wr(s, e, LEDec(a.v, 4))
    [] e.op = "w64" -> Wr(s, e, LEDec(a.v, 8))
    [] e.op = "wvi" -> Wr(s, e, VarIntBig(BigDec(a.v)))
    [] e.op = "wb" -> Wr(s, e, Un(a.b))
    [] e.op = "wvb" -> Wr(s, e, VarBytes(Un(a.b)))
    [] e.op = "wvs" -> Wr(s, e, VarBytes(Un(a.b)))
    [] e.op = "r8" -> RdNum(s, e, 1)
    [] e.op = "r16" -> RdNum(s, e, 2)
    [] e.op = "r32" -> RdNum(s, e, 4)
    [] e.op = "r64" -> RdNum(s, e, 8)
    [] e.op = "rvi" -> LET r == RdVarInt(s.d, s.at) IN Rd(s, e, r, IF r.ok THEN BigToDec(r.v) ELSE "")
    [] e.op = "rb" -> LET n == BigDec(a.n)
                          fit == BLeq(Big(0), n) /\ BLeq(n, Big(Len(s.d) - s.at))
                          r == IF fit THEN RdBytes(s.d, s.at, BigToInt(n)) ELSE RdFail
                      IN Rd(s, e, r, Hx(r.v))
    [] e.op \in {"rvb", "rvs"} -> LET r == RdVarBytes(s.d, s.at) IN Rd(s, e, r, Hx(r.v))
    [] e.op = "bytes" -> Into([s EXCEPT !.outs = Append(@, Hx(s.d))], e, [b |-> Hx(s.d), prev |-> s.outs, src |-> s.src])
    [] e.op = "rest" -> Into([s EXCEPT !.outs = Append(@, Hx(Drop(s.d, s.at)))], e,
                             [b |-> Hx(Drop(s.d, s.at)), len |-> Len(s.d), seek |-> s.at, end |-> (s.at >= Len(s.d)), prev |-> s.outs, src |-> s.src])
    [] e.op = "reset" -> Into([s EXCEPT !.d = << >>, !.at = 0], e, [len |-> 0, seek |-> 0])
    [] e.op = "visize" -> Same(s, e, [n |-> Len(VarIntBig(BigDec(a.v)))])
    \* codecs
    [] e.op = "b58enc" -> Same(s, e, [s |-> BytesToStr(B58Encode(Un(a.b)))])
    [] e.op = "b58dec" -> LET t == Un(a.s) IN Same(s, e, [b |-> IF B58Valid(t) THEN Hx(B58Decode(t)) ELSE ""])
    [] e.op = "b58cenc" -> Same(s, e, [s |-> BytesToStr(B58CheckEncode(Un(a.b), a.ver)), same |-> TRUE])
    [] e.op = "b58cdec" -> LET r == B58CheckDecode(Un(a.s)) IN
                           Same(s, e, IF r.ok THEN [ok |-> TRUE, ver |-> r.ver, b |-> Hx(r.b)] ELSE [ok |-> FALSE])
    [] e.op = "b32enc" -> LET r == B32Encode(Un(a.h), Un(a.d)) IN
                          Same(s, e, IF r.ok THEN [ok |-> TRUE, s |-> BytesToStr(r.s), same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE])
    [] e.op = "b32dec" -> LET r == B32Decode(Un(a.s)) IN
                          Same(s, e, IF r.ok THEN [ok |-> TRUE, h |-> BytesToStr(r.h), d |-> Hx(r.d)] ELSE [ok |-> FALSE])
    [] e.op = "swenc" -> LET r == SegwitEncode(Un(a.h), a.ver, Un(a.p)) IN
                         Same(s, e, IF r.ok THEN [ok |-> TRUE, s |-> BytesToStr(r.s), same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE])
    [] e.op = "swdec" -> LET r == SegwitDecode(Un(a.s)) IN
                         Same(s, e, IF r.ok THEN [ok |-> TRUE, h |-> BytesToStr(r.h), ver |-> r.ver, p |-> Hx(r.p)] ELSE [ok |-> FALSE])
    [] e.op = "idenc" -> Same(s, e, [s |-> IdEncode(Un(a.b)), same |-> TRUE])
    [] e.op = "iddec" -> LET r == IdDecode(Un(a.s)) IN Same(s, e, IF r.ok THEN [ok |-> TRUE, b |-> Hx(r.b)] ELSE [ok |-> FALSE])
    \* digests
    [] e.op = "digests" -> LET b == Un(a.b) IN
                           Same(s, e, [sha256 |-> Hx(Sha256(b)), double |-> Hx(Hash256(b)), ripemd |-> Hx(Ripemd160(b)), hash160 |-> Hx(Hash160(b)), same |-> TRUE])
    [] e.op = "pbkdf2" -> Same(s, e, [k |-> Hx(Pbkdf2(a.alg, Un(a.pw), Un(a.salt), a.iter, a.n)), same |-> TRUE])
    [] e.op = "ripw" -> Into([s EXCEPT !.rip = @ \o Un(a.b)], e, [n |-> Len(Un(a.b))])
    [] e.op = "rips" -> Same(s, e, [b |-> Hx(Un(a.pre) \o Ripemd160(s.rip))])
    [] e.op = "ripr" -> Into([s EXCEPT !.rip = << >>], e, [n |-> 0])
    [] e.op = "bigint" -> Same(s, e, [v |-> BigToDec(BigOfBytes(Un(a.b)))])
=============================================================================
