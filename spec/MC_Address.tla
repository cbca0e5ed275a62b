---------------------------- MODULE MC_Address ----------------------------
(* Every type and network: an address decodes on its own network only, to     *)
(* what it was made of; a changed character is never another destination.     *)
EXTENDS AddressSpec, GenRun
CONSTANT Deep

Rec(op, a) == [op |-> op, a |-> a]
Net(n) == [name |-> n, p |-> 0, s |-> 0, h |-> ""]
Nets == { Net("main"), Net("test"), [name |-> "x", p |-> 48, s |-> 50, h |-> "ltc"], [name |-> "x", p |-> 0, s |-> 111, h |-> "t1b"],
          [name |-> "x", p |-> 30, s |-> 22, h |-> "b"], [name |-> "x", p |-> 60, s |-> 122, h |-> "bc1"] }
Fill(n, x, y) == [k \in 1..n |-> IF k <= 2 THEN x ELSE (k * 37 + y) % 256] \o << >>
Hashes(t) == { Fill(HashLenOf(t), x, y) : x \in {0, 255}, y \in {3, 90} } \cup { Rep(0, HashLenOf(t)), Rep(255, HashLenOf(t)) }
Types == {"p2pkh", "p2sh", "p2wpkh", "p2wsh"}
Upper(t) == [k \in 1..Len(t) |-> IF IsLower(t[k]) THEN t[k] - 32 ELSE t[k]] \o << >>
\* one character replaced at a position
Repl(x, k, c) == [x EXCEPT ![k] = c]
\* the same checksum made right for altered groups: versions, padding bits, one group more or less
Alter(x) == LET r == B32Decode(x)
                L == Len(r.d)
            IN IF ~r.ok THEN {} ELSE
               { B32Encode(r.h, d).s : d \in { [r.d EXCEPT ![L] = v] : v \in 0..31 } \cup { [r.d EXCEPT ![1] = v] : v \in {1, 2, 15, 16, 17, 31} }
                                       \cup { Append(r.d, 0), Append(r.d, 1), SubSeq(r.d, 1, L - 1) } }
GInits == { [x |-> 0] }
GMoves(s, n) ==
  IF n = 1 THEN { Rec("mk", [t |-> t, h |-> Hx(h), net |-> net]) : t \in Types, h \in UNION { Hashes(u) : u \in Types }, net \in Nets }
  ELSE IF s.last = << >> THEN {}
  ELSE { Rec("dec", [s |-> Hx(s.last), net |-> net]) : net \in Nets }
       \cup { Rec("dec", [s |-> Hx(Upper(s.last)), net |-> net]) : net \in {Net("main"), Net("test")} }
       \cup { Rec("dec", [s |-> Hx(Repl(s.last, k, c)), net |-> Net("main")]) :
              k \in (IF Deep THEN 1..Len(s.last) ELSE {1, 2, Len(s.last) \div 2, Len(s.last)}), c \in {49, 51, 113} }
       \cup (IF Hx(SubSeq(s.last, 1, 2)) \in {"6263", "7462"} /\ (Deep \/ Un(hist[1].a.h)[1] = 0)
             THEN { Rec("dec", [s |-> Hx(y), net |-> hist[1].a.net]) : y \in Alter(s.last) } ELSE {})

\* own network: what it was made of
Own == Len(hist) = 2 /\ hist[2].a.net = hist[1].a.net /\ hist[2].a.s = Hx(st.last)
       => hist[2].r.ok /\ hist[2].r.t = hist[1].a.t /\ hist[2].r.h = hist[1].a.h /\ hist[2].r.script = hist[1].r.script
\* elsewhere, or changed: nothing, unless the networks agree on the prefix or only the case of a segwit address changed
Prefix(t, net) == CASE t = "p2pkh" -> <<"b", net.p>> [] t = "p2sh" -> <<"b", net.s>> [] OTHER -> <<"h", net.h>>
Never == Len(hist) = 2 /\ hist[2].r.ok
         => \/ /\ hist[2].a.s = Hx(st.last)
               /\ \E u \in Types : Prefix(u, NetOf(hist[2].a.net)) = Prefix(hist[1].a.t, NetOf(hist[1].a.net))
            \/ hist[1].a.t \in {"p2wpkh", "p2wsh"} /\ Lower(Un(hist[2].a.s)) = st.last
            \* altered groups under a right checksum: the address of its own, different, destination
            \/ /\ hist[2].r.h # hist[1].a.h /\ hist[2].r.t \in {"p2wpkh", "p2wsh"}
               /\ Hx(StrToBytes(hist[2].r.s)) = hist[2].a.s
LockBack == Len(hist) = 1 /\ hist[1].r.ok =>
            LET c == Classify(Un(hist[1].r.script)) IN c.t = hist[1].a.t /\ Hx(c.hash) = hist[1].a.h
=============================================================================
