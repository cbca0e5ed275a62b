------------------------------ MODULE ConcSpec ------------------------------
(* Workers, each with a program of calls on values of its own and on values    *)
(* all of them share and none may change.  What a call says depends on nothing  *)
(* but its arguments: a worker's results are those it has alone, however the    *)
(* workers' calls are interleaved, and two workers asking the same are told the *)
(* same.                                                                         *)
EXTENDS AliasSpec
Own == {"x", "B", "K", "w", "M", "E"}       \* kinds a worker has for itself
CInit(init) == [shared |-> << >>, memo |-> "none" :> << >>]
\* the results of a program: one of each call, repeated
Shaped(prog, reps, l) == /\ Len(l) = Len(prog) * reps
                         /\ \A k \in 1..Len(l) : LET c == prog[((k - 1) % Len(prog)) + 1] IN
                              l[k].ok => Len(l[k].out) = Len(Sig[c.f].out) + (IF Len(c.args) > 0 /\ Sig[c.f].in[1] \in Own THEN 1 ELSE 0)
Calls(r) == UNION { { r.alone[w][k] : k \in 1..Len(r.alone[w]) } : w \in 1..Len(r.alone) }
\* the same question twice has one answer
OneAnswer(memo, calls) == /\ \A c \in calls : c.key \in DOMAIN memo => memo[c.key] = c
                          /\ \A c, d \in calls : c.key = d.key => c = d
ByKey(calls) == [k \in { c.key : c \in calls } |-> CHOOSE c \in calls : c.key = k]
CStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "pool" -> LET has == "cells" \in DOMAIN e.r IN
         [st |-> [s EXCEPT !.shared = IF has THEN e.r.cells ELSE << >>], exp |-> [cells |-> "the shared values"], ok |-> has /\ Len(e.r.cells) = Len(a.cells)]
    [] e.op = "run" ->
         IF "conc" \notin DOMAIN e.r THEN [st |-> s, exp |-> [cells |-> s.shared], ok |-> FALSE]
         ELSE LET calls == Calls(e.r) IN
              [st |-> [s EXCEPT !.memo = s.memo @@ ByKey(calls)],
               exp |-> [conc |-> e.r.alone, cells |-> s.shared],
               ok |-> /\ Len(e.r.alone) = Len(a.workers)
                      /\ \A w \in 1..Len(a.workers) : Shaped(a.workers[w].prog, a.reps, e.r.alone[w])
                      /\ e.r.conc = e.r.alone
                      /\ e.r.cells = s.shared
                      /\ OneAnswer(s.memo, calls)]
=============================================================================
