---------------------------- MODULE MC_MultiSig ----------------------------
(* All m-of-n checks over small sets of keys and signatures.                  *)
EXTENDS VM, StubEnv, Json
CONSTANTS MaxN, Emit
E0 == [mode |-> "stub", acc |-> << >>]
Keys == { <<170>>, <<187>>, <<204>> }
SigOf(k, t) == k \o <<t, 119, t>>
Sigs == { << >>, <<1>>, SigOf(<<170>>, 1), SigOf(<<187>>, 1), SigOf(<<204>>, 3), SigOf(<<170>>, 129) }
Dummies == { "none", "zero" }
PushOf(d) == IF d = << >> THEN <<0>> ELSE <<Len(d)>> \o d         \* a push that also keeps one-byte values as they are
VARIABLES keys, sigs, dummy, op
vars == <<keys, sigs, dummy, op>>
Init == keys = << >> /\ sigs = << >> /\ dummy \in Dummies /\ op \in {174, 175}
AddKey == Len(keys) < MaxN /\ sigs = << >> /\ \E k \in Keys : keys' = Append(keys, k) /\ UNCHANGED <<sigs, dummy, op>>
AddSig == Len(sigs) < Len(keys) /\ \E s \in Sigs : sigs' = Append(sigs, s) /\ UNCHANGED <<keys, dummy, op>>
Next == AddKey \/ AddSig
Spec == Init /\ [][Next]_vars

\* below the check's own elements lies a marker that must survive it
Prog == <<82>> \o (IF dummy = "zero" THEN <<0>> ELSE << >>)
        \o FlatCat([k \in 1..Len(sigs) |-> PushOf(sigs[k])] \o << >>) \o <<IF sigs = << >> THEN 0 ELSE 80 + Len(sigs)>>
        \o FlatCat([k \in 1..Len(keys) |-> PushOf(keys[k])] \o << >>) \o <<IF keys = << >> THEN 0 ELSE 80 + Len(keys)>>
        \o <<op>>
R == TraceFrom(VM0(E0), Prog, 0, 1, << >>)
EmitCase == Emit => EmitLine(ToJson([p |-> Hx(Prog), ok |-> Accepts(R.m), k |-> IF R.tr = << >> THEN "" ELSE Last(R.tr).k]))

Valid(s, k) == s # << >> /\ SubSeq(s, 1, Len(s) - 1) = k \o <<Last(s), 119>>
\* the definition: an order-preserving assignment of signatures to keys
Increasing(f) == \A a, b \in DOMAIN f : a < b => f[a] < f[b]
Matchable == \E f \in [1..Len(sigs) -> 1..Len(keys)] : Increasing(f) /\ \A a \in 1..Len(sigs) : Valid(sigs[a], keys[f[a]])
IffMatch ==
  IF dummy = "none"
  THEN \* the extra element is the marker itself
       IF op = 174 THEN R.m.st = "run" /\ R.m.ds = <<BoolB(Matchable)>>
       ELSE (R.m.st = "run") = Matchable /\ (R.m.st = "run" => R.m.ds = << >>)
  ELSE IF op = 174 THEN R.m.st = "run" /\ R.m.ds = <<<<2>>, BoolB(Matchable)>>
       ELSE (R.m.st = "run") = Matchable /\ (R.m.st = "run" => R.m.ds = <<<<2>>>>)
=============================================================================
