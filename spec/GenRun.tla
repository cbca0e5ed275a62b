------------------------------- MODULE GenRun -------------------------------
(* Explores every history of at most MaxLen operations of a specification    *)
(* given as StInit/Step (see TraceRun) and emits each complete one, with the  *)
(* results the specification allows, for replay on the real code.            *)
EXTENDS Integers, Sequences, TLC, Json, Prims, StepLib
CONSTANTS StInit(_), Step(_, _),
          Inits,            \* the initial arguments
          Moves(_, _),      \* Moves(st, n): the [op, a] tried as the n-th operation
          MaxLen

VARIABLES ini, st, hist
gvars == <<ini, st, hist>>
GInit == /\ ini \in Inits
         /\ st = StInit(ini)
         /\ hist = << >>
GNext == /\ Len(hist) < MaxLen
         /\ \E m \in Moves(st, Len(hist) + 1) :
              LET s == Step(st, [op |-> m.op, a |-> m.a, r |-> [none |-> 0]])
              IN /\ st' = s.st
                 /\ hist' = Append(hist, [op |-> m.op, a |-> m.a, r |-> s.exp])
         /\ UNCHANGED ini
Spec == GInit /\ [][GNext]_gvars

Complete == Len(hist) = MaxLen \/ Moves(st, Len(hist) + 1) = {}
EmitCase == (Complete /\ hist # << >>) => EmitLine(ToJson([init |-> ini, ev |-> hist]))
=============================================================================
