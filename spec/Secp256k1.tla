----------------------------- MODULE Secp256k1 -----------------------------
(* The curve y^2 = x^3 + 7 and its group.  A point is << >> (infinity) or     *)
(* <<x, y>>, both big integers.  The group law is defined for any prime field *)
(* so that MC_Curve can check it exhaustively on a small one.                 *)
EXTENDS Bytes

Zero == Big(0)
One == Big(1)
Seven == Big(7)
Inf == << >>
EcOn(p, m) == p = Inf \/ (BLt(p[1], m) /\ BLt(p[2], m)
                          /\ BMulMod(p[2], p[2], m) = BAddMod(BMulMod(BMulMod(p[1], p[1], m), p[1], m), Seven, m))
EcNeg(p, m) == IF p = Inf THEN Inf ELSE <<p[1], BSubMod(Zero, p[2], m)>>
\* the third point of slope l through p and x2, mirrored
EcChord(p, x2, l, m) == LET x3 == BSubMod(BSubMod(BMulMod(l, l, m), p[1], m), x2, m)
                        IN <<x3, BSubMod(BMulMod(l, BSubMod(p[1], x3, m), m), p[2], m)>>
EcDbl(p, m) == IF p = Inf THEN Inf
               ELSE IF p[2] = Zero THEN Inf
               ELSE EcChord(p, p[1], BMulMod(BMulMod(Big(3), BMulMod(p[1], p[1], m), m), BModInv(BAddMod(p[2], p[2], m), m), m), m)
EcAdd(p, q, m) == IF p = Inf THEN q
                  ELSE IF q = Inf THEN p
                  ELSE IF p[1] # q[1] THEN EcChord(p, q[1], BMulMod(BSubMod(q[2], p[2], m), BModInv(BSubMod(q[1], p[1], m), m), m), m)
                  ELSE IF p[2] = q[2] THEN EcDbl(p, m)
                  ELSE Inf
\* k times p, k >= 0, by doubling
RECURSIVE EcMul(_, _, _)
EcMul(k, p, m) == IF k = Zero THEN Inf
                  ELSE LET h == EcMul(BShr(k, 1), p, m)
                           d == EcDbl(h, m)
                       IN IF BBit(k, 0) THEN EcAdd(d, p, m) ELSE d

CP == BigHex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
CN == BigHex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
CG == << BigHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
         BigHex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8") >>
OnCurve(p) == EcOn(p, CP)
PNeg(p) == EcNeg(p, CP)
PAdd(p, q) == EcAdd(p, q, CP)
PDbl(p) == EcDbl(p, CP)
PMul(k, p) == SecpMul(k, p)                 \* = EcMul(k, p, CP), see MC_Curve
PBase(k) == SecpMul(k, CG)
Jacobi1(y) == y # Zero /\ BModPow(y, BShr(BSub(CP, One), 1), CP) = One     \* a nonzero square

\* encodings
X32(v) == BigToBytes(v, 32)
Enc33(p) == << IF BBit(p[2], 0) THEN 3 ELSE 2 >> \o X32(p[1])
Enc65(p) == <<4>> \o X32(p[1]) \o X32(p[2])
EncHyb(p) == << IF BBit(p[2], 0) THEN 7 ELSE 6 >> \o X32(p[1]) \o X32(p[2])
\* the point with this x and this parity of y, if there is one
LiftX(x, odd) ==
  LET c == BAddMod(BMulMod(BMulMod(x, x, CP), x, CP), Seven, CP)
      r == BModPow(c, BShr(BAdd(CP, One), 2), CP)
  IN IF ~BLt(x, CP) \/ BMulMod(r, r, CP) # c THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, p |-> << x, IF BBit(r, 0) = odd THEN r ELSE BSubMod(Zero, r, CP) >>]
DecPub(b) ==
  LET x == BigOfBytes(SubSeq(b, 2, 33))
      y == BigOfBytes(SubSeq(b, 34, 65))
      no == [ok |-> FALSE]
  IN IF Len(b) = 33 /\ b[1] \in {2, 3} THEN LiftX(x, b[1] = 3)
     ELSE IF Len(b) = 65 /\ b[1] \in {4, 6, 7}
          THEN IF OnCurve(<<x, y>>) /\ (b[1] = 4 \/ (b[1] = 7) = BBit(y, 0)) THEN [ok |-> TRUE, p |-> <<x, y>>] ELSE no
     ELSE no
IsScalar(k) == BLt(Zero, k) /\ BLt(k, CN)
=============================================================================
