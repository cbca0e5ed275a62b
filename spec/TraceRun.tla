------------------------------ MODULE TraceRun ------------------------------
(* Validates recorded executions of the real code against a specification.   *)
(*                                                                           *)
(* A trace file holds one session per line: [id, name, init, ev], ev being a *)
(* sequence of events [op, a, r]: operation, arguments, observed result.     *)
(* A specification instantiates                                              *)
(*   StInit(init)  - the abstract state a session starts from                *)
(*   Step(st, e)   - the transition: [st |-> next state, ok |-> the observed *)
(*                   result is one the specification allows, exp |-> what it *)
(*                   allows, for the report]                                 *)
(* Every event is one step of the state machine below; sessions are          *)
(* independent initial states.  An observation the specification forbids is  *)
(* written to the run's output file and the session goes on, so that every   *)
(* event is examined.  Acceptance is decided outside: no line written, and   *)
(* exactly one state per event plus one per session was reached.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Prims, StepLib

CONSTANTS StInit(_), Step(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* Recorded in place of an operation that panicked or did not return in time:
\* no specification allows either.
Crashes == {"panic", "hang"}

VARIABLES sess, pos, st
vars == <<sess, pos, st>>

Init == /\ sess \in 1..Len(Trace)
        /\ pos = 0
        /\ st = StInit(Trace[sess].init)

Next == /\ pos < Len(Trace[sess].ev)
        /\ LET e == Trace[sess].ev[pos + 1]
               s == IF e.op \in Crashes THEN [st |-> st, ok |-> FALSE, exp |-> "a result"] ELSE Step(st, e)
           IN /\ IF s.ok THEN TRUE
                 ELSE EmitLine(ToJson([sess |-> Trace[sess].name, pos |-> pos + 1, op |-> e.op, expected |-> s.exp]))
              /\ st' = s.st
        /\ pos' = pos + 1
        /\ sess' = sess

Spec == Init /\ [][Next]_vars

=============================================================================
