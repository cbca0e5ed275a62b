------------------------------ MODULE MC_Curve ------------------------------
(* The group law, exhaustively on the same curve over a small field, and the  *)
(* Java scalar multiplication against the definition on secp256k1 itself.     *)
EXTENDS Secp256k1
CONSTANTS Modulus, Ks
M == Big(Modulus)
Pts == {Inf} \cup { q \in { <<Big(a), Big(b)>> : a \in 0..(Modulus - 1), b \in 0..(Modulus - 1) } : EcOn(q, M) }
VARIABLES p, q, r
vars == <<p, q, r>>
Init == p \in Pts /\ q = Inf /\ r = Inf
\* walk over all triples
Next == \/ q = Inf /\ r = Inf /\ q' \in Pts /\ UNCHANGED <<p, r>>
        \/ r = Inf /\ r' \in Pts /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars
A(x, y) == EcAdd(x, y, M)
Closed == EcOn(A(p, q), M)
Commutes == A(p, q) = A(q, p)
Associates == A(A(p, q), r) = A(p, A(q, r))
Neutral == A(p, Inf) = p /\ A(p, EcNeg(p, M)) = Inf /\ A(p, p) = EcDbl(p, M)
Mul(k, x) == EcMul(Big(k), x, M)
Multiples == q = Inf /\ r = Inf => \A k, j \in 0..9 : Mul(k + j, p) = A(Mul(k, p), Mul(j, p)) /\ Mul(k * j, p) = Mul(k, Mul(j, p))
\* secp256k1: order, and the primitive equals the definition
Edge == { Zero, One, Big(2), BSub(CN, One), CN, BAdd(CN, One), BigHex("8000000000000000000000000000000000000000000000000000000000000001") }
        \cup { BigOfBytes(Sha256(<<k % 256, k \div 256>>)) : k \in 1..Ks }
ASSUME EcOn(CG, CP)
ASSUME EcMul(CN, CG, CP) = Inf
ASSUME \A k \in Edge : SecpMul(k, CG) = EcMul(k, CG, CP)
ASSUME \A k \in Edge : LET t == SecpMul(BigOfBytes(Sha256(X32(BMod(k, CN)))), CG) IN SecpMul(k, t) = EcMul(k, t, CP)
=============================================================================
