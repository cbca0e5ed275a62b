------------------------------ MODULE Schnorr ------------------------------
(* Schnorr signatures as in the bip-schnorr draft the code implements:        *)
(* r is the x of a nonce point whose y is a square, e commits to r, the       *)
(* compressed key and the message.                                            *)
EXTENDS Secp256k1
SK0(d, m) == BMod(BigOfBytes(Sha256(X32(d) \o m)), CN)
SK(R, k0) == IF Jacobi1(R[2]) THEN k0 ELSE BSub(CN, k0)
SE(rx, q, m) == BMod(BigOfBytes(Sha256(X32(rx) \o Enc33(q) \o m)), CN)
SchnorrSign(d, m) ==
  LET k0 == SK0(d, m)
      R == PBase(k0)
      k == SK(R, k0)
  IN X32(R[1]) \o X32(BAddMod(k, BMul(SE(R[1], PBase(d), m), d), CN))
SchnorrOk(q, m, r, s) ==
  /\ BLeq(Zero, r) /\ BLt(r, CP) /\ BLeq(Zero, s) /\ BLt(s, CN)
  /\ LET R == PAdd(PBase(s), PNeg(PMul(SE(r, q, m), q)))
     IN R # Inf /\ R[1] = r /\ Jacobi1(R[2])
SchnorrVerify(q, m, sig) == Len(sig) = 64 /\ SchnorrOk(q, m, BigOfBytes(SubSeq(sig, 1, 32)), BigOfBytes(SubSeq(sig, 33, 64)))
=============================================================================
