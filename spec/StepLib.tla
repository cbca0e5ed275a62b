------------------------------ MODULE StepLib ------------------------------
(* How a specification answers an observed event e = [op, a, r]:             *)
(* [st |-> next state, ok |-> the result is allowed, exp |-> what is].       *)
EXTENDS Integers, Sequences
Same(st0, e, x) == [st |-> st0, ok |-> (e.r = x), exp |-> x]
Into(st1, e, x) == [st |-> st1, ok |-> (e.r = x), exp |-> x]
Holds(st0, b, x) == [st |-> st0, ok |-> b, exp |-> x]
=============================================================================
