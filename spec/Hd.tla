--------------------------------- MODULE Hd ---------------------------------
(* BIP32: extended keys [prv, d, q, cc, depth, fp, num]; d is the private key *)
(* (Zero in a public one), q the point.                                       *)
EXTENDS Secp256k1, Codec, StepLib
Versions == { [t |-> <<4, 136, 173, 228>>, prv |-> TRUE], [t |-> <<4, 136, 178, 30>>, prv |-> FALSE],
              [t |-> <<4, 53, 131, 148>>, prv |-> TRUE], [t |-> <<4, 53, 135, 207>>, prv |-> FALSE] }
Version(net, prv) == CASE net = "main" /\ prv -> <<4, 136, 173, 228>> [] net = "main" -> <<4, 136, 178, 30>>
                       [] prv -> <<4, 53, 131, 148>> [] OTHER -> <<4, 53, 135, 207>>
PrvKey0(d, cc, depth, fp, num) == [prv |-> TRUE, d |-> d, q |-> PBase(d), cc |-> cc, depth |-> depth, fp |-> fp, num |-> num]
PubKey0(q, cc, depth, fp, num) == [prv |-> FALSE, d |-> Zero, q |-> q, cc |-> cc, depth |-> depth, fp |-> fp, num |-> num]
Master(seed) == LET I == HmacSha512(StrToBytes("Bitcoin seed"), seed)
                IN PrvKey0(BigOfBytes(SubSeq(I, 1, 32)), SubSeq(I, 33, 64), 0, Rep(0, 4), Rep(0, 4))
Hard == BShl(One, 31)
NoKey == [ok |-> FALSE]
\* the child number i (a big number below 2^32)
Child(k, i) ==
  LET hard == BLeq(Hard, i)
      num == BigToBytes(i, 4)
      I == HmacSha512(k.cc, (IF hard THEN <<0>> \o X32(k.d) ELSE Enc33(k.q)) \o num)
      l == BigOfBytes(SubSeq(I, 1, 32))
      c == SubSeq(I, 33, 64)
      fp == SubSeq(Hash160(Enc33(k.q)), 1, 4)
  IN IF (hard /\ ~k.prv) \/ k.depth = 255 THEN NoKey
     ELSE [ok |-> TRUE, k |-> IF k.prv THEN PrvKey0(BAddMod(k.d, l, CN), c, k.depth + 1, fp, num)
                              ELSE PubKey0(PAdd(k.q, PBase(l)), c, k.depth + 1, fp, num)]
Neuter(k) == PubKey0(k.q, k.cc, k.depth, k.fp, k.num)
Raw(k, ver) == ver \o <<k.depth>> \o k.fp \o k.num \o k.cc \o (IF k.prv THEN <<0>> \o X32(k.d) ELSE Enc33(k.q))
Text(k, net) == LET b == Raw(k, Version(net, k.prv)) IN B58Encode(b \o Check4(b))

\* [ok, k, sure]: sure is false where neither answer is wrong
FromText(t) ==
  LET b == IF B58Valid(t) THEN B58Decode(t) ELSE << >>
      body == SubSeq(b, 1, 78)
      no == [ok |-> FALSE, sure |-> TRUE]
  IN IF Len(b) # 82 THEN no
     ELSE IF Check4(body) # SubSeq(b, 79, 82) THEN no
     ELSE LET ver == SubSeq(b, 1, 4)
              depth == b[5]
              kd == SubSeq(b, 46, 78)
              prv == kd[1] = 0
              d == BigOfBytes(Tail(kd))
              q == IF prv THEN [ok |-> TRUE, p |-> Inf] ELSE DecPub(kd)
              known == { v \in Versions : v.t = ver }
          IN IF depth = 0 /\ SubSeq(b, 6, 13) # Rep(0, 8) THEN no
             ELSE IF \E v \in known : v.prv # prv THEN no
             ELSE IF prv /\ ~IsScalar(d) THEN no
             ELSE IF ~q.ok THEN no
             ELSE [ok |-> TRUE, sure |-> known # {},
                   k |-> IF prv THEN PrvKey0(d, SubSeq(b, 14, 45), depth, SubSeq(b, 6, 9), SubSeq(b, 10, 13))
                         ELSE PubKey0(q.p, SubSeq(b, 14, 45), depth, SubSeq(b, 6, 9), SubSeq(b, 10, 13))]

\* paths: m, then numbers below 2^32, or below 2^31 with a ' for the hardened ones
Digits == 48..57
PathStep(t) ==
  LET hard == t # << >> /\ t[Len(t)] = 39
      n == IF hard THEN SubSeq(t, 1, Len(t) - 1) ELSE t
      v == BigDec(BytesToStr(n))
  IN IF n = << >> \/ \E j \in 1..Len(n) : n[j] \notin Digits THEN NoKey
     ELSE IF hard THEN (IF BLt(v, Hard) THEN [ok |-> TRUE, i |-> BAdd(v, Hard)] ELSE NoKey)
     ELSE IF BLt(v, BShl(One, 32)) THEN [ok |-> TRUE, i |-> v] ELSE NoKey
RECURSIVE Along(_, _, _)
Along(k, steps, n) ==
  IF n > Len(steps) THEN [ok |-> TRUE, k |-> k]
  ELSE LET s == PathStep(StrToBytes(steps[n])) IN
       IF ~s.ok THEN NoKey
       ELSE LET c == Child(k, s.i) IN IF c.ok THEN Along(c.k, steps, n + 1) ELSE NoKey
ByPath(k, path) ==
  LET steps == SplitStr(path, "/") IN
  IF path = "" THEN [ok |-> TRUE, k |-> k]
  ELSE IF steps[1] # "m" THEN NoKey
  ELSE Along(k, steps, 2)

Show(k) == [ok |-> TRUE, main |-> BytesToStr(Text(k, "main")), test |-> BytesToStr(Text(k, "test")),
            pub |-> Hx(Enc33(k.q)), prv |-> IF k.prv THEN Hx(X32(k.d)) ELSE ""]
ShowNo == [ok |-> FALSE]
\* keys: all keys of the session; key 1 is the master
HdInit(init) == [keys |-> << Master(Un(init.seed)) >>, fresh |-> {}]
Has(r, f) == f \in DOMAIN r
Give(s, e, r) == IF r.ok THEN Into([s EXCEPT !.keys = Append(@, r.k)], e, Show(r.k)) ELSE Same(s, e, ShowNo)
HdStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "seed" -> Give(s, e, [ok |-> TRUE, k |-> Master(Un(a.seed))])
    [] e.op = "child" -> Give(s, e, Child(s.keys[a.k], BigDec(a.i)))
    [] e.op = "path" -> Give(s, e, ByPath(s.keys[a.k], a.path))
    [] e.op = "neuter" -> Give(s, e, [ok |-> TRUE, k |-> Neuter(s.keys[a.k])])
    [] e.op = "show" -> Same(s, e, Show(s.keys[a.k]))
    [] e.op = "parse" -> LET r == FromText(Un(a.s)) IN
                         IF r.sure THEN Give(s, e, r)
                         ELSE IF Has(e.r, "ok") /\ ~e.r.ok THEN Same(s, e, ShowNo)
                         ELSE Give(s, e, r)
    [] e.op = "rand" ->     \* a fresh master key
         LET r == FromText(StrToBytes(IF Has(e.r, "main") THEN e.r.main ELSE "")) IN
         IF ~r.ok THEN Holds(s, FALSE, "a fresh master key")
         ELSE Holds([s EXCEPT !.keys = Append(@, r.k), !.fresh = @ \cup {r.k.d}],
                    e.r = Show(r.k) /\ r.k.prv /\ r.k.depth = 0 /\ r.k.d \notin s.fresh, "a fresh master key")
=============================================================================
