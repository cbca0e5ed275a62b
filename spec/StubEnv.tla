------------------------------- MODULE StubEnv -------------------------------
(* Signature callbacks for running scripts without a transaction.            *)
(* env.mode = "stub": the hash of type t is <<t, 0x77>>, type 0xEE is        *)
(*   refused; a signature is valid iff it is the key followed by the hash.   *)
(* env.mode = "table": as above, but valid iff <<signature, key, type>> is   *)
(*   listed in env.acc (hex, hex, number): an arbitrary verifier.            *)
(* env.mode = "none": there are no callbacks, every signature check errs.    *)
EXTENDS Bytes
StubHash(env, t) == IF t = 238 THEN [ok |-> FALSE, h |-> << >>] ELSE [ok |-> TRUE, h |-> <<t, 119>>]
StubValid(env, h, sig, key) ==
  IF env.mode = "table" THEN \E k \in 1..Len(env.acc) : env.acc[k] = <<Hx(sig), Hx(key), h[1]>>
  ELSE sig = key \o h
=============================================================================
