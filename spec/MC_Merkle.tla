----------------------------- MODULE MC_Merkle -----------------------------
(* Trees of every small size, with and without repeated leaves: the proof of  *)
(* each leaf verifies and no altered one does.                                *)
EXTENDS MerkleSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Leaf(k) == Sha256(<<k>>)
Sizes == 0..9 \cup (IF Deep THEN (10..18) \cup {31, 32, 33} ELSE {16, 17})
Lists == { [k \in 1..n |-> Leaf(k)] \o << >> : n \in Sizes }
         \cup { [k \in 1..n |-> Leaf(k % 2)] \o << >> : n \in {3, 4, 7} }
         \cup { [k \in 1..n |-> Leaf(IF k = n THEN n - 1 ELSE k)] \o << >> : n \in {2, 3, 4, 6, 8} }
         \cup { [k \in 1..n |-> <<k>>] \o << >> : n \in {1, 2, 3, 5} }
         \cup { [k \in 1..n |-> Rep(0, 32)] \o << >> : n \in {1, 2, 3, 5} }
GInits == { [x |-> 0] }
Other == Leaf(200)
ShowL(L) == [k \in 1..Len(L) |-> Hx(L[k])] \o << >>
Flip(h) == [h EXCEPT ![1] = IXor(h[1], 1)]
Turn(x) == IF x = "left" THEN "right" ELSE "left"
Ver(leaf, root, path) == Rec("verify", [leaf |-> Hx(leaf), root |-> Hx(root), path |-> ShowSteps(path)])
\* one thing altered, and consistent forgeries: what follows the altered step is computed anew
RECURSIVE Redo(_, _)
Redo(h, path) == IF path = << >> THEN << >>
                 ELSE LET x == path[1]
                          n == IF x.pos = "left" THEN MNode(x.h, h) ELSE MNode(h, IF x.h = Missing THEN h ELSE x.h)
                      IN << [x EXCEPT !.p = n] >> \o Redo(n, Tail(path))
Alter(leaf, root, path) ==
  { Ver(leaf, root, path), Ver(Other, root, path), Ver(leaf, Other, path), Ver(leaf, << >>, path), Ver(leaf, root, << >>), Ver(root, root, << >>), Ver(leaf, leaf, << >>),
    Ver(Other, root, Redo(Other, path)), Ver(leaf \o <<0>>, root, path), Ver(leaf, root \o <<0>>, path), Ver(leaf, root, path \o path) }
  \cup UNION { { Ver(leaf, root, [path EXCEPT ![k].h = Flip(@)]), Ver(leaf, root, [path EXCEPT ![k].p = Flip(@)]),
                 Ver(leaf, root, [path EXCEPT ![k].pos = Turn(@)]), Ver(leaf, root, [path EXCEPT ![k].pos = "up"]), Ver(leaf, root, [path EXCEPT ![k].pos = ""]),
                 Ver(leaf, root, Redo(leaf, [path EXCEPT ![k].pos = Turn(@)])), Ver(leaf, root, Redo(leaf, [path EXCEPT ![k].h = Flip(@)])),
                 Ver(leaf, root, SubSeq(path, 1, k - 1) \o SubSeq(path, k + 1, Len(path))), Ver(leaf, root, SubSeq(path, 1, k)),
                 Ver(leaf, path[k].p, SubSeq(path, 1, k)), Ver(path[k].p, root, SubSeq(path, k + 1, Len(path))),
                 Ver(leaf, root, [path EXCEPT ![k].h = @ \o <<1>>]), Ver(leaf, root, [path EXCEPT ![k].p = << >>]),
                 Ver(leaf, root, IF path[k].pos = "right" THEN [path EXCEPT ![k].h = Missing] ELSE path), Ver(leaf, root, IF path[k].pos = "right" THEN Redo(leaf, [path EXCEPT ![k].h = Missing]) ELSE path),
                 Ver(path[k].h, root, [path EXCEPT ![k].h = leaf]),
                 Ver(path[k].h, root, [path EXCEPT ![k].h = leaf, ![k].pos = Turn(@)]) } : k \in 1..Len(path) }
GMoves(s, n) ==
  IF n = 1 THEN { Rec("new", [leaves |-> ShowL(L)]) : L \in Lists }
  ELSE IF n = 2 THEN { Rec("proofs", [leaf |-> Hx(x)]) : x \in Range(s.L) \cup {Other} \cup (IF s.L = << >> THEN {} ELSE {MRoot(s.L)}) }
  ELSE IF s.L = << >> THEN {Ver(Other, << >>, << >>), Ver(Other, Other, << >>)}
  ELSE Alter(Un(hist[2].a.leaf), MRoot(s.L), Steps(hist[2].r.path))

A == hist[3].a
Complete1 == Len(hist) = 3 => LET m == Un(hist[2].a.leaf) IN
             m \in Range(st.L) /\ A = Ver(m, MRoot(st.L), Steps(hist[2].r.path)).a => hist[3].r.ok
\* what verifies against the root names the leaf or a node of the tree, at its own place
RECURSIVE Levels(_)
Levels(L) == IF Len(L) <= 1 THEN Range(L) ELSE Range(L) \cup Levels(Up(L))
Sound == Len(hist) = 3 /\ hist[3].r.ok /\ A.root = Hx(MRoot(st.L)) => Pad32(Un(A.leaf)) \in { Pad32(x) : x \in Levels(st.L) }   \* leaves are 32-byte hashes; shorter ones are padded
ProofLen == Len(hist) = 2 => LET n == Len(st.L) IN
            IF Un(hist[2].a.leaf) \in Range(st.L) THEN 2 ^ Len(hist[2].r.path) >= n /\ (hist[2].r.path # << >> => 2 ^ (Len(hist[2].r.path) - 1) < n) ELSE hist[2].r.path = << >>
\* block 100000
Tx(t) == Reverse(HexToBytes(t))
ASSUME MRoot(<<Tx("8c14f0db3df150123e6f3dbbf30f8b955a8249b62ac1d1ff16284aefa3d06d87"), Tx("fff2525b8931402dd09222c50775608f75787bd2b87e56995a7bdd30f79702c4"),
               Tx("6359f0868171b1d194cbee1af2f16ea598ae8fad666d9b012c8ed2b79a236ec4"), Tx("e9a66845e05d5abc0ad04ec80f774a7e585c6e8db975962d069a522137b80c1d")>>)
       = Tx("f3e94742aca4b5ef85488dc37c06c3282295ffec960994b2c0d5ac2a25a95766")
=============================================================================
