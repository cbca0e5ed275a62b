------------------------------- MODULE Ecdsa -------------------------------
(* ECDSA on secp256k1: RFC 6979 nonces with SHA-256, low S, strict DER.       *)
EXTENDS Secp256k1

\* the leftmost 256 bits
HashInt(h) == BigOfBytes(IF Len(h) > 32 THEN SubSeq(h, 1, 32) ELSE h)

RECURSIVE NonceLoop(_, _)
NonceLoop(k, v) ==
  LET v1 == HmacSha256(k, v)
      c == BigOfBytes(v1)
      k2 == HmacSha256(k, v1 \o <<0>>)
  IN IF IsScalar(c) THEN c ELSE NonceLoop(k2, HmacSha256(k2, v1))
Nonce(d, h) ==
  LET bx == X32(d) \o X32(BMod(HashInt(h), CN))
      v0 == Rep(1, 32)
      k1 == HmacSha256(Rep(0, 32), v0 \o <<0>> \o bx)
      v1 == HmacSha256(k1, v0)
      k2 == HmacSha256(k1, v1 \o <<1>> \o bx)
  IN NonceLoop(k2, HmacSha256(k2, v1))

LowS(s) == IF BLt(BShr(CN, 1), s) THEN BSub(CN, s) ELSE s
EcdsaSign(d, h) ==
  LET k == Nonce(d, h)
      r == BMod(PBase(k)[1], CN)
      s == BMulMod(BModInv(k, CN), BAdd(HashInt(h), BMul(r, d)), CN)
  IN [r |-> r, s |-> LowS(s)]
EcdsaOk(q, h, r, s) ==
  /\ IsScalar(r) /\ IsScalar(s)
  /\ LET w == BModInv(s, CN)
         x == PAdd(PBase(BMulMod(HashInt(h), w, CN)), PMul(BMulMod(r, w, CN), q))
     IN x # Inf /\ BMod(x[1], CN) = r

\* DER of two integers, any sign and size
DerLen(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
\* minimal two's complement
TwosMin(v) ==
  IF v = Zero THEN <<0>>
  ELSE IF BLt(Zero, v) THEN LET b == BigToMinBytes(v) IN IF b[1] >= 128 THEN <<0>> \o b ELSE b
  ELSE LET n == BBitLen(v) \div 8 + 1     \* bytes needed
       IN BigToBytes(BAdd(BShl(One, 8 * n), v), n)
TwosOf(b) == LET u == BigOfBytes(b) IN IF b[1] >= 128 THEN BSub(u, BShl(One, 8 * Len(b))) ELSE u
DerInt(v) == LET b == TwosMin(v) IN <<2>> \o DerLen(Len(b)) \o b
Der(r, s) == LET b == DerInt(r) \o DerInt(s) IN <<48>> \o DerLen(Len(b)) \o b
\* [ok, v, at] a tag, its length and contents
Tlv(p, at, tag) ==
  LET no == [ok |-> FALSE, v |-> << >>, at |-> 0]
      take(n, k) == IF at + k + n <= Len(p) THEN [ok |-> TRUE, v |-> Slice(p, at + k, n), at |-> at + k + n] ELSE no
  IN IF at + 2 > Len(p) THEN no
     ELSE IF p[at + 1] # tag THEN no
     ELSE IF p[at + 2] < 128 THEN take(p[at + 2], 2)
     ELSE IF p[at + 2] = 129 /\ at + 3 <= Len(p) THEN take(p[at + 3], 3)
     ELSE IF p[at + 2] = 130 /\ at + 4 <= Len(p) THEN take(256 * p[at + 3] + p[at + 4], 4)
     ELSE no
DerParse(p) ==
  LET q == Tlv(p, 0, 48)
      a == Tlv(q.v, 0, 2)
      b == Tlv(q.v, a.at, 2)
      no == [ok |-> FALSE]
  IN IF ~q.ok THEN no
     ELSE IF ~a.ok THEN no
     ELSE IF ~b.ok \/ a.v = << >> \/ b.v = << >> THEN no
     ELSE IF Der(TwosOf(a.v), TwosOf(b.v)) # p THEN no           \* strict: the one encoding
     ELSE [ok |-> TRUE, r |-> TwosOf(a.v), s |-> TwosOf(b.v)]
EcdsaVerify(q, h, sig) == LET d == DerParse(sig) IN d.ok /\ EcdsaOk(q, h, d.r, d.s)
=============================================================================
