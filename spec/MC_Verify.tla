----------------------------- MODULE MC_Verify -----------------------------
(* Every unlocking script over an alphabet against a set of locking scripts:  *)
(* acceptance must come with the evidence the locking script demands.  Each   *)
(* pair is emitted with its verdict and replayed in the real engine.          *)
EXTENDS VM, StubEnv, Json
CONSTANTS MaxLen, Emit

E0 == [mode |-> "stub", acc |-> << >>]
Key == <<170>>
Key2 == <<187>>
SigOf(k) == k \o <<1, 119, 1>>
RedeemEq == <<82, 135>>                       \* OP_2 OP_EQUAL
RedeemSig == PushData(Key) \o <<172>>
RedeemBad == <<81, 99>>                       \* leaves a conditional open
RedeemFalse == <<0>>
P2(r) == P2SH(Hash160(r))
Twenty == [k \in 1..20 |-> 0]
RedeemSh == P2(RedeemFalse)                   \* looks like pay-to-script-hash, but is only run
Locks == [ sig |-> PushData(Key) \o <<172>>,
           sigv |-> PushData(Key) \o <<173>>,
           pkh |-> P2PKH(Hash160(Key)),
           two |-> <<82, 135>>,
           branch |-> <<99>> \o PushData(Key) \o <<172, 103, 82, 135, 104>>,
           multi |-> MultiSig(2, <<Key, Key2>>),
           sheq |-> P2(RedeemEq), shsig |-> P2(RedeemSig), shbad |-> P2(RedeemBad), shfalse |-> P2(RedeemFalse), shempty |-> P2(<< >>), shsh |-> P2(RedeemSh),
           \* not pay-to-script-hash, though close
           near1 |-> <<169, 76, 20>> \o Hash160(RedeemSig) \o <<135>>,
           near2 |-> <<169>> \o PushData(Hash160(RedeemFalse)) \o <<136, 81>>,
           near3 |-> <<106>> \o P2(RedeemFalse),
           near4 |-> P2(RedeemFalse) \o <<117, 81>>,
           near5 |-> P2(RedeemBad) \o <<106>>,
           near6 |-> <<169>> \o PushData(SubSeq(Hash160(RedeemFalse), 1, 19)) \o <<135>>,
           \* as long as pay-to-script-hash, with one byte that is not its
           len1 |-> <<106>> \o PushData(Twenty) \o <<135>>,
           len2 |-> <<169, 117>> \o PushData(SubSeq(Twenty, 1, 18)) \o <<118, 135>>,
           len3 |-> <<169>> \o PushData(Hash160(RedeemFalse)) \o <<136>>,
           len4 |-> <<169>> \o PushData(Twenty) \o <<117>> ]
Alphabet == { <<0>>, <<81>>, <<82>>, <<99>>, <<100>>, <<103>>, <<104>>, <<106>>, <<117>>, <<118>>, <<135>>,
              PushData(SigOf(Key)), PushData(SigOf(Key2)), PushData(Key), PushData(RedeemEq), PushData(RedeemSig), PushData(RedeemBad),
              PushData(RedeemFalse), PushData(RedeemSh), PushData(Twenty) }
\* pieces that end a script badly or try to swallow what follows
Enders == { <<1>>, <<2>>, <<4>>, <<23>>, <<76, 4>>, <<77, 4, 0>>, <<78, 4, 0, 0, 0>>, <<186>>, <<1, 0>> }

VARIABLES unl, lk, done
vars == <<unl, lk, done>>
Init == unl = << >> /\ lk \in DOMAIN Locks /\ done = FALSE
Next == /\ ~done /\ Len(unl) < MaxLen
        /\ \E b \in Alphabet \cup Enders : unl' = Append(unl, b) /\ done' = (b \in Enders)
        /\ lk' = lk
Spec == Init /\ [][Next]_vars

U == FlatCat(unl)
L == Locks[lk]
Ok == VerifyOk(E0, U, L)
EmitCase == Emit => EmitLine(ToJson([u |-> Hx(U), l |-> Hx(L), ok |-> Ok]))

\* the stack the unlocking script leaves, judged without the machine's help
S == Run(VM0(E0), U)
St == S.ds
N == Len(St)
Has(n) == N >= n
ValidSig(s, k) == \E t \in Byte \ {238} : s = k \o <<t, 119, t>>
Clean == Parses(U) /\ S.st = "run" /\ S.cs = << >>
Truthy(s) == \E k \in 1..Len(s) : s[k] \notin {0, 128}
Evidence ==
  CASE lk \in {"sig", "sigv"} -> Has(1) /\ ValidSig(St[N], Key) /\ (lk = "sigv" /\ N > 1 => AsBool(St[N - 1]))
    [] lk = "pkh" -> Has(2) /\ St[N] = Key /\ ValidSig(St[N - 1], Key)
    [] lk = "two" -> Has(1) /\ St[N] = <<2>>
    [] lk = "branch" -> Has(2) /\ \/ St[N] = <<1>> /\ ValidSig(St[N - 1], Key)
                                  \/ St[N] = << >> /\ St[N - 1] = <<2>>
    [] lk = "multi" -> Has(3) /\ ValidSig(St[N], Key2) /\ ValidSig(St[N - 1], Key)
    [] lk = "sheq" -> Has(2) /\ St[N] = RedeemEq /\ St[N - 1] = <<2>>
    [] lk = "shsig" -> Has(2) /\ St[N] = RedeemSig /\ ValidSig(St[N - 1], Key)
    [] lk = "near1" -> Has(1) /\ St[N] = RedeemSig
    [] lk = "near2" -> Has(1) /\ St[N] = RedeemFalse
    [] lk = "near3" -> Has(1) /\ St[N] = RedeemFalse
    [] lk = "near4" -> Has(1)
    [] lk = "near5" -> Has(1) /\ St[N] = RedeemBad
    [] lk = "len1" -> Has(1) /\ St[N] = Twenty
    [] lk = "len2" -> Has(1)
    [] lk = "len3" -> Has(1) /\ St[N] = RedeemFalse /\ (N = 1 \/ AsBool(St[N - 1]))
    [] lk = "len4" -> Has(1) /\ AsBool(Hash160(St[N]))
    [] lk = "shsh" -> Has(2) /\ St[N] = RedeemSh /\ St[N - 1] = RedeemFalse
    [] lk = "shempty" -> Has(1) /\ St[N] = << >> /\ (N = 1 \/ AsBool(St[N - 1]))
    [] OTHER -> FALSE                          \* shbad, shfalse: nothing opens them
\* nothing opens a lock without the evidence, and the evidence always does
NoBypass == Ok <=> (Clean /\ Evidence)
=============================================================================
