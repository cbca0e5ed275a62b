--------------------------------- MODULE VM ---------------------------------
(* The script machine: one instruction per step.                             *)
(*                                                                           *)
(* A machine state is [ds, cs, st, env]: data stack (bottom first),          *)
(* condition stack (1 taken, 0 not taken, 2 inside an untaken branch),       *)
(* status ("run" or "err") and the environment the signature callbacks       *)
(* SigHash and SigValid read (it never changes during a run; without         *)
(* callbacks, env.mode = "none", signature opcodes fail).                    *)
EXTENDS Script

CONSTANTS SigHash(_, _),        \* env, hash-type byte -> [ok, h]
          SigValid(_, _, _, _)  \* env, hash, signature (without hash type), key -> BOOLEAN

VM0(env) == [ds |-> << >>, cs |-> << >>, st |-> "run", env |-> env]
Fail(m) == [m EXCEPT !.st = "err"]

Depth(m) == Len(m.ds)
Top(m, k) == m.ds[Len(m.ds) - k]              \* k = 0 is the top
Cut(m, n) == SubSeq(m.ds, 1, Len(m.ds) - n)
Push(m, v) == [m EXCEPT !.ds = Append(@, v)]
Repl(m, n, v) == [m EXCEPT !.ds = Append(SubSeq(@, 1, Len(@) - n), v)]
BoolB(b) == IF b THEN <<1>> ELSE << >>
Skipping(m) == m.cs # << >> /\ Last(m.cs) # 1

(* ---- flow control ---- *)
DoIf(m, want) ==
  IF Skipping(m) THEN [m EXCEPT !.cs = Append(@, 2)]
  ELSE IF Depth(m) < 1 THEN Fail(m)
  ELSE LET v == Top(m, 0) IN
       IF v # << >> /\ v # <<1>> THEN Fail(m)
       ELSE [m EXCEPT !.ds = Cut(m, 1), !.cs = Append(@, IF (v = <<1>>) = want THEN 1 ELSE 0)]
DoElse(m) == IF m.cs = << >> THEN Fail(m)
             ELSE [m EXCEPT !.cs[Len(m.cs)] = CASE @ = 1 -> 0 [] @ = 0 -> 1 [] OTHER -> @]
DoEndIf(m) == IF m.cs = << >> THEN Fail(m) ELSE [m EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1)]

(* ---- signatures ---- *)
\* one signature element (with its hash-type byte) against one key:
\* "true", "false" or "err" (the hash callback refused the hash type)
SigCheck(env, sig, key) ==
  IF sig = << >> THEN "false"
  ELSE LET h == SigHash(env, Last(sig)) IN
       IF ~h.ok THEN "err"
       ELSE IF SigValid(env, h.h, SubSeq(sig, 1, Len(sig) - 1), key) THEN "true" ELSE "false"

\* signatures and keys, both in the order they are popped
RECURSIVE MultiSigMatch(_, _, _)
MultiSigMatch(env, sigs, keys) ==
  IF sigs = << >> THEN "true"
  ELSE IF Len(sigs) > Len(keys) THEN "false"
  ELSE LET r == SigCheck(env, sigs[1], keys[1]) IN
       IF r = "err" THEN "err"
       ELSE MultiSigMatch(env, IF r = "true" THEN Tail(sigs) ELSE sigs, Tail(keys))

\* pops: n keys.. count, m sigs.. count, one dummy.
\* Result [st |-> "err" | "ok", rest |-> remaining data stack, val |-> BOOLEAN]
MErr == [st |-> "err", rest |-> << >>, val |-> FALSE]
\* a count element as an integer, -1 when it is not a usable count
CountOf(b) == IF ~NumOk(b, 4) THEN -1
              ELSE LET a == NumDecode(b) IN
                   IF BLt(a, Big(0)) THEN -1 ELSE IF BLt(Big(100000), a) THEN 100001 ELSE BigToInt(a)
PopRev(ds, n) == [k \in 1..n |-> ds[Len(ds) - k + 1]] \o << >>     \* top n, top first
EvalMultiSig(env, ds) ==
  IF ds = << >> THEN MErr ELSE
  LET n == CountOf(Last(ds))
      d1 == SubSeq(ds, 1, Len(ds) - 1)
  IN IF n < 0 \/ Len(d1) < n + 1 THEN MErr ELSE
     LET keys == PopRev(d1, n)
         d2 == SubSeq(d1, 1, Len(d1) - n)
         m == CountOf(Last(d2))
         d3 == SubSeq(d2, 1, Len(d2) - 1)
     IN IF m < 0 \/ m > n \/ Len(d3) < m + 1 THEN MErr ELSE
        LET sigs == PopRev(d3, m)
            r == MultiSigMatch(env, sigs, keys)
        IN IF r = "err" THEN MErr
           ELSE [st |-> "ok", rest |-> SubSeq(d3, 1, Len(d3) - m - 1), val |-> (r = "true")]

(* ---- one instruction ---- *)
Exec(m, i) ==
  CASE i.op \in 0..78 \/ i.op = OP1NEGATE \/ i.op \in 81..96 -> Push(m, PushedValue(i))
    [] i.op = OPIF -> DoIf(m, TRUE)
    [] i.op = OPNOTIF -> DoIf(m, FALSE)
    [] i.op = OPELSE -> DoElse(m)
    [] i.op = OPENDIF -> DoEndIf(m)
    [] i.op = OPRETURN -> m                       \* deviation from Bitcoin pinned by the tests: a no-op
    [] i.op = OPDUP -> IF Depth(m) < 1 THEN Fail(m) ELSE Push(m, Top(m, 0))
    [] i.op = OP2DUP -> IF Depth(m) < 2 THEN Fail(m) ELSE [m EXCEPT !.ds = @ \o SubSeq(@, Len(@) - 1, Len(@))]
    [] i.op = OP3DUP -> IF Depth(m) < 3 THEN Fail(m) ELSE [m EXCEPT !.ds = @ \o SubSeq(@, Len(@) - 2, Len(@))]
    [] i.op = OPDROP -> IF Depth(m) < 1 THEN Fail(m) ELSE [m EXCEPT !.ds = Cut(m, 1)]
    [] i.op = OPSWAP -> IF Depth(m) < 2 THEN Fail(m) ELSE [m EXCEPT !.ds = Cut(m, 2) \o <<Top(m, 0), Top(m, 1)>>]
    [] i.op = OPSIZE -> IF Depth(m) < 1 THEN Fail(m) ELSE Push(m, NumEncode(Big(Len(Top(m, 0)))))
    [] i.op = OPEQUAL -> IF Depth(m) < 2 THEN Fail(m) ELSE Repl(m, 2, BoolB(Top(m, 0) = Top(m, 1)))
    [] i.op = OPEQUALVERIFY -> IF Depth(m) < 2 \/ Top(m, 0) # Top(m, 1) THEN Fail(m) ELSE [m EXCEPT !.ds = Cut(m, 2)]
    [] i.op = OPADD -> IF Depth(m) < 2 \/ ~NumOk(Top(m, 0), 4) \/ ~NumOk(Top(m, 1), 4) THEN Fail(m)
                       ELSE Repl(m, 2, NumEncode(BAdd(NumDecode(Top(m, 0)), NumDecode(Top(m, 1)))))
    [] i.op = OPHASH160 -> IF Depth(m) < 1 THEN Fail(m) ELSE Repl(m, 1, Hash160(Top(m, 0)))
    [] i.op \in {OPCHECKSIG, OPCHECKSIGVERIFY} ->
         IF Depth(m) < 2 \/ m.env.mode = "none" THEN Fail(m)
         ELSE LET r == SigCheck(m.env, Top(m, 1), Top(m, 0)) IN
              IF r = "err" THEN Fail(m)
              ELSE IF i.op = OPCHECKSIG THEN Repl(m, 2, BoolB(r = "true"))
              ELSE IF r = "true" THEN [m EXCEPT !.ds = Cut(m, 2)] ELSE Fail(m)
    [] i.op \in {OPCHECKMULTISIG, OPCHECKMULTISIGVERIFY} ->
         LET r == IF m.env.mode = "none" THEN MErr ELSE EvalMultiSig(m.env, m.ds) IN
         IF r.st = "err" THEN Fail(m)
         ELSE IF i.op = OPCHECKMULTISIG THEN [m EXCEPT !.ds = Append(r.rest, BoolB(r.val))]
         ELSE IF r.val THEN [m EXCEPT !.ds = r.rest] ELSE Fail(m)
    [] OTHER -> Fail(m)

StepInstr(m, i) == IF Skipping(m) /\ i.op \notin Conditionals THEN m ELSE Exec(m, i)

(* ---- whole scripts ---- *)
RECURSIVE RunFrom(_, _, _)
RunFrom(m, p, at) ==
  IF m.st = "err" THEN m
  ELSE LET i == ReadInstr(p, at) IN
       CASE i.k = "end" -> m
         [] i.k = "err" -> Fail(m)
         [] OTHER -> RunFrom(StepInstr(m, i), p, i.next)
Run(m, p) == RunFrom(m, p, 0)

\* End of a script whose result counts: conditionals closed and, unless the
\* stack is empty (deviation pinned by the tests), a true element on top.
\* The top element is consumed.
Accepts(m) == m.st = "run" /\ m.cs = << >> /\ (m.ds = << >> \/ AsBool(Last(m.ds)))
Settle(m) == IF m.ds = << >> THEN m ELSE [m EXCEPT !.ds = Cut(m, 1)]

(* ---- unlocking + locking ---- *)
\* The last unlocking element is the redeem script of a pay-to-script-hash.
VerifyOk(env, unlock, lock) ==
  LET u == Run(VM0(env), unlock) IN
  IF u.st = "err" \/ u.cs # << >> THEN FALSE
  ELSE LET l == Run(u, lock) IN
       IF ~Accepts(l) THEN FALSE
       ELSE IF ~IsP2SH(lock) THEN TRUE
       ELSE Accepts(Run([u EXCEPT !.ds = Cut(u, 1)], Last(u.ds)))

ExecOk(env, p) == Accepts(Run(VM0(env), p))

(* ---- the recorded trace ---- *)
\* Each executed instruction that does not fail leaves one record: step
\* number, opcode, resulting stack, remaining script.  Steps are counted per
\* attempted read, the one that finds the end of a script included.
StackStr(ds) == IF ds = << >> THEN " <empty> "
                ELSE JoinStr([k \in 1..Len(ds) |-> IF ds[k] = << >> THEN " <empty> "
                                                   ELSE JoinStr(<<" <", Hx(ds[k]), "> ">>, "")] \o << >>, "")
Record(step, op, ds, rest) == [s |-> step, o |-> OpName(op), k |-> StackStr(ds), rest |-> rest]
RECURSIVE TraceFrom(_, _, _, _, _)
TraceFrom(m, p, at, step, acc) ==
  LET i == ReadInstr(p, at) IN
  IF i.k # "ok" THEN [m |-> IF i.k = "err" THEN Fail(m) ELSE m, step |-> step, tr |-> acc]
  ELSE LET n == StepInstr(m, i) IN
       IF n.st = "err" THEN [m |-> n, step |-> step, tr |-> acc]
       ELSE TraceFrom(n, p, i.next, step + 1, Append(acc, Record(step, i.op, n.ds, Drop(p, i.next))))
ExecTrace(env, p) == TraceFrom(VM0(env), p, 0, 1, << >>).tr
\* Verification records unlocking and locking script as one run, and then the
\* redeem script if it comes to that.
VerifyTrace(env, unlock, lock) ==
  LET u == Run(VM0(env), unlock) IN
  IF u.st = "err" \/ u.cs # << >> THEN << >>
  ELSE LET a == TraceFrom(VM0(env), unlock \o lock, 0, 1, << >>) IN
       IF ~Accepts(a.m) \/ ~IsP2SH(lock) THEN a.tr
       ELSE TraceFrom([u EXCEPT !.ds = Cut(u, 1)], Last(u.ds), 0, a.step + 1, a.tr).tr
\* o: a recorded trace [s, o, k, m] where m is the disassembly of the rest
TraceMatches(rec, want) ==
  /\ Len(rec) = Len(want)
  /\ \A k \in 1..Len(want) :
       /\ rec[k].s = want[k].s
       /\ rec[k].o = want[k].o
       /\ rec[k].k = want[k].k
       /\ Parses(want[k].rest) => rec[k].m = Disasm(want[k].rest)
=============================================================================
