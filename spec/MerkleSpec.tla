----------------------------- MODULE MerkleSpec -----------------------------
EXTENDS Merkle, StepLib
MInit(init) == [L |-> << >>]
Steps(path) == [k \in 1..Len(path) |-> [h |-> IF path[k].h = "nil" THEN Missing ELSE Un(path[k].h), p |-> Un(path[k].p), pos |-> path[k].pos]] \o << >>
ShowSteps(path) == [k \in 1..Len(path) |-> [h |-> IF path[k].h = Missing THEN "nil" ELSE Hx(path[k].h), p |-> Hx(path[k].p), pos |-> path[k].pos]] \o << >>
MStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "new" -> LET L == [k \in 1..Len(a.leaves) |-> Un(a.leaves[k])] \o << >>
                       IN Into([s EXCEPT !.L = L], e, [root |-> Hx(MRoot(L)), same |-> TRUE])
    [] e.op = "root" -> Same(s, e, [root |-> Hx(MRoot(s.L))])
    [] e.op = "proofs" ->
         LET at == {k \in 1..Len(s.L) : s.L[k] = Un(a.leaf)}
             all == { [path |-> ShowSteps(MProof(s.L, k)), same |-> TRUE] : k \in at }
             first == IF at = {} THEN [path |-> << >>, same |-> TRUE]
                      ELSE [path |-> ShowSteps(MProof(s.L, CHOOSE k \in at : \A j \in at : k <= j)), same |-> TRUE]
         IN Holds(s, e.r \in all \cup {first}, first)
    [] e.op = "verify" -> Same(s, e, [ok |-> MVerify(Un(a.leaf), Un(a.root), Steps(a.path)), same |-> TRUE])
=============================================================================
