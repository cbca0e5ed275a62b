------------------------------- MODULE Merkle -------------------------------
(* Bitcoin merkle trees: every level pairs neighbours, an odd last one with   *)
(* itself.  A proof is the list of siblings from the leaf to the root.        *)
EXTENDS Bytes
\* hashes shorter than 32 bytes stand for themselves followed by zeros
Pad32(b) == b \o Rep(0, 32 - Len(b))
MNode(l, r) == Hash256(Pad32(l) \o Pad32(r))
Up(L) == [k \in 1..((Len(L) + 1) \div 2) |-> MNode(L[2 * k - 1], IF 2 * k <= Len(L) THEN L[2 * k] ELSE L[2 * k - 1])] \o << >>
RECURSIVE MRoot(_)
MRoot(L) == IF L = << >> THEN << >> ELSE IF Len(L) = 1 THEN L[1] ELSE MRoot(Up(L))
\* the proof for the k-th leaf: [h |-> sibling, p |-> parent, pos |-> the sibling's side]
RECURSIVE MProof(_, _)
MProof(L, k) ==
  IF Len(L) <= 1 THEN << >>
  ELSE LET U == Up(L)
           j == (k + 1) \div 2
           sib == IF k % 2 = 0 THEN L[k - 1] ELSE IF k < Len(L) THEN L[k + 1] ELSE L[k]
       IN << [h |-> sib, p |-> U[j], pos |-> IF k % 2 = 0 THEN "left" ELSE "right"] >> \o MProof(U, j)
\* a right sibling that is not there: the node is paired with itself
Missing == <<-1>>
MVerify(leaf, root, path) ==
  LET F[k \in 0..Len(path)] ==      \* [ok, h] after k steps
        IF k = 0 THEN [ok |-> TRUE, h |-> leaf]
        ELSE LET b == F[k - 1]
                 x == [path[k] EXCEPT !.h = IF @ = Missing THEN b.h ELSE @]
             IN IF ~b.ok \/ x.pos \notin {"left", "right"} \/ Len(b.h) > 32 \/ Len(x.h) > 32 THEN [ok |-> FALSE, h |-> << >>]
                ELSE LET n == IF x.pos = "left" THEN MNode(x.h, b.h) ELSE MNode(b.h, x.h)
                     IN [ok |-> n = x.p, h |-> n]
  IN F[Len(path)].ok /\ F[Len(path)].h = root
=============================================================================
