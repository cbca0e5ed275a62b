------------------------------- MODULE MC_VM -------------------------------
(* Every program over an alphabet of script pieces, up to a length: the       *)
(* machine runs one piece per step.  Each reached program is also emitted,    *)
(* with its verdict and last recorded stack, and replayed in the real engine. *)
EXTENDS VM, StubEnv, Json

CONSTANTS MaxLen, Emit

E0 == [mode |-> "stub", acc |-> << >>]
Key == <<170>>
GoodSig == PushData(Key \o <<1, 119, 1>>)
Alphabet == {
  <<0>>, <<79>>, <<81>>, <<82>>, <<99>>, <<100>>, <<103>>, <<104>>, <<106>>, <<110>>, <<111>>, <<117>>, <<118>>, <<124>>, <<130>>,
  <<135>>, <<136>>, <<147>>, <<169>>, <<172>>, <<173>>, <<174>>, <<175>>, <<1, 128>>, <<76, 1, 104>>, PushData(Key), GoodSig }
Broken == { <<2, 81>>, <<76>>, <<77, 1>>, <<78, 255, 255, 255, 255>>, <<186>>, <<80>> }

VARIABLES prog, m, last
vars == <<prog, m, last>>

Init == prog = << >> /\ m = VM0(E0) /\ last = ""
\* extend a program that still runs by one piece
Extend(b) == /\ Len(prog) < MaxLen
             /\ m.st = "run"
             /\ prog' = Append(prog, b)
             /\ LET i == ReadInstr(b, 0) IN
                m' = IF i.k = "ok" THEN StepInstr(m, i) ELSE Fail(m)
             /\ last' = IF m'.st = "err" THEN last ELSE StackStr(m'.ds)
Next == \E b \in Alphabet \cup Broken : Extend(b)
Spec == Init /\ [][Next]_vars

Bytes0 == FlatCat(prog)
EmitCase == Emit => EmitLine(ToJson([p |-> Hx(Bytes0), ok |-> Accepts(m), k |-> last]))

(* ---- properties of the machine ---- *)
TypeOK == /\ m.st \in {"run", "err"}
          /\ \A k \in 1..Len(m.cs) : m.cs[k] \in 0..2
          /\ \A k \in 1..Len(m.ds) : \A j \in 1..Len(m.ds[k]) : m.ds[k][j] \in Byte
\* running the bytes from the start is what stepping did
BytesAgree == LET r == Run(VM0(E0), Bytes0) IN r.st = m.st /\ (m.st = "run" => r = m)
\* a nested branch is only taken inside taken ones
Nesting == \A j, k \in 1..Len(m.cs) : j < k /\ m.cs[j] # 1 => m.cs[k] = 2
\* instructions in an untaken branch have no effect on the data
Untaken == [][Skipping(m) => m'.ds = m.ds]_vars
\* an instruction other than a conditional never changes the branch structure
Branches == [][Len(prog') > Len(prog) /\ Last(prog')[1] \notin Conditionals => m'.cs = m.cs]_vars
\* a verdict of success needs closed conditionals and a result that is not false
Verdict == ExecOk(E0, Bytes0) => m.st = "run" /\ m.cs = << >> /\ (m.ds # << >> => \E k \in 1..Len(Last(m.ds)) : Last(m.ds)[k] # 0)
\* no success without evidence: a signature opcode yields true only with the good signature
SigEvidence == [][(Len(prog') > Len(prog) /\ ~Skipping(m) /\ Last(prog') \in {<<172>>, <<173>>} /\ m'.st = "run")
                   => LET yes == IF Last(prog') = <<172>> THEN Last(m'.ds) = <<1>> ELSE TRUE
                      IN yes = (Top(m, 1) = Top(m, 0) \o <<1, 119, 1>> \/ \E t \in Byte : Top(m, 1) = Top(m, 0) \o <<t, 119, t>> /\ t # 238)]_vars
=============================================================================
