------------------------------- MODULE MC_Rpc -------------------------------
(* Every method with every kind of value of the right and the wrong type in     *)
(* every field, and every fault of the reply; calls in sequence on one client.  *)
EXTENDS RpcSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Methods == {"getblockhash", "getblockcount", "getblockheader", "getblock"}
T(x) == [k |-> "str", s |-> Hx(StrToBytes(x))]
N(x) == [k |-> "int", s |-> x]
Null == [k |-> "null"]
None == [k |-> "none"]
RECURSIVE Sample(_, _)
\* a value of the type, different in every place
Sample(s, seed) ==
  CASE s.k = "str" -> T(StrCat("v", IntToStr(seed)))
    [] s.k = "int" -> N(IntToStr(seed % 2000))
    [] s.k = "flt" -> [k |-> "flt", s |-> StrCat(IntToStr(seed), ".25")]
    [] s.k = "list" -> [k |-> "list", e |-> <<Sample(s.e, seed + 1), Sample(s.e, seed + 400)>>]
    [] OTHER -> [k |-> "obj", f |-> [j \in 1..Len(s.f) |-> [n |-> s.f[j][1], v |-> Sample(s.f[j][2], seed + 17 * j)]] \o << >>]
RECURSIVE Bad(_)
Bad(s) == CASE s.k = "str" -> { N("1"), [k |-> "bool"], [k |-> "list", e |-> << >>], [k |-> "obj", f |-> << >>] }
            [] s.k = "int" -> { T("1"), [k |-> "flt", s |-> "1.5"], [k |-> "bool"], N(BigToDec(BAdd(BigDec(s.hi), Big(1)))), N(BigToDec(BSub(BigDec(s.lo), Big(1)))) }
            [] s.k = "flt" -> { T("1.5"), [k |-> "bool"], [k |-> "list", e |-> << >>] }
            [] OTHER -> { T("x"), N("7"), [k |-> "bool"], IF s.k = "list" THEN [k |-> "obj", f |-> << >>] ELSE [k |-> "list", e |-> << >>] }
Edge(s) == CASE s.k = "str" -> { T(""), T("\\\"/") } [] s.k = "int" -> { N(s.lo), N(s.hi) } [] s.k = "flt" -> { N("0"), N("21000000"), [k |-> "flt", s |-> "0.00000001"] }
             [] s.k = "list" -> { [k |-> "list", e |-> << >>] } [] OTHER -> { [k |-> "obj", f |-> << >>] }
RECURSIVE Variants(_, _, _)
\* values that differ from the sample in one place, at any depth
Variants(s, seed, w) ==
  (IF w = "edge" THEN Edge(s) ELSE Bad(s)) \cup
  CASE s.k = "list" -> { [k |-> "list", e |-> <<v, Sample(s.e, seed + 400)>>] : v \in Variants(s.e, seed + 1, w) }
    [] s.k = "obj" -> LET b == Sample(s, seed) IN
                      UNION { { [b EXCEPT !.f[j].v = v] : v \in Variants(s.f[j][2], seed + 17 * j, w) } : j \in 1..Len(s.f) }
                      \cup { [b EXCEPT !.f = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))] : j \in 1..Len(s.f) }
    [] OTHER -> {}
Hash == "30303030303030303862"
Arg(m) == CASE m = "getblockhash" -> {"0", "-1", "1099511627776"} [] m = "getblockcount" -> {""} [] OTHER -> {Hash, "", Hx(StrToBytes("\"a b\""))}
Plain(m) == [status |-> 200, id |-> "same", err |-> "null", body |-> "whole", res |-> Sample(Schema(m), 1)]
Replies(m) == LET p == Plain(m) s == Schema(m) IN
  { [p EXCEPT !.status = x] : x \in {200, 201, 301, 400, 401, 403, 404, 500, 503} }
  \cup { [p EXCEPT !.id = x] : x \in {"other", "none", "null"} }
  \cup { [p EXCEPT !.err = x, !.res = y, !.status = z] : x \in {"none", "null", "obj", "empty", "bad"}, y \in {Sample(s, 1), Null, None}, z \in {200, 500} }
  \cup { [p EXCEPT !.body = x] : x \in {"cut", "tail", "list", "null", "empty", "text", "short", "drop"} }
  \cup { [p EXCEPT !.res = Sample(Schema(x), 9)] : x \in Methods }
Values(m) == { [Plain(m) EXCEPT !.res = v] : v \in Variants(Schema(m), 1, "edge") \cup Variants(Schema(m), 1, "bad") }
GInits == { [user |-> u, pass |-> p, m |-> m] : u \in {"75736572"}, p \in {"70613a73"}, m \in Methods } \cup { [user |-> "", pass |-> "", m |-> "getblockcount"] }
Call(m, a, p) == Rec("call", [m |-> m, arg |-> a, reply |-> p])
First(m) == { Call(m, a, Plain(m)) : a \in Arg(m) } \cup { Call(m, IF m = "getblockhash" THEN "5" ELSE IF m = "getblockcount" THEN "" ELSE Hash, p) : p \in Replies(m) \cup Values(m) }
GMoves(s, n) == CASE n = 1 -> First(ini.m)
                  \* what the next call returns does not depend on it
                  [] n = 2 /\ (Deep \/ hist[1].a.reply.body # "whole" \/ hist[1].a.reply.status # 200) -> { Call(m, IF m = "getblockhash" THEN "6" ELSE IF m = "getblockcount" THEN "" ELSE Hash, Plain(m)) : m \in IF Deep THEN {"getblockhash", "getblockheader"} ELSE {"getblockheader"} }
                  [] OTHER -> {}
\* a value is returned only if it is the one in the reply; every fault is an error
Outcomes == \A k \in 1..Len(hist) : LET p == hist[k].a.reply IN
   /\ (p = Plain(hist[k].a.m)) => hist[k].r.ok
   /\ hist[k].r.ok => p.body = "whole" /\ p.id # "other" /\ p.err \in {"none", "null"} /\ p.status < 300 /\ p.res.k \notin {"null", "none"}
\* no two values of a method that conform are taken for the same (missing fields apart, which read as zero)
ASSUME \A m \in {"getblockheader", "getblockcount"} : \A v \in Variants(Schema(m), 1, "bad") : v.k # "obj" \/ Len(v.f) # 14 \/ ~Conforms(Schema(m), v)
ASSUME \A m \in Methods : Conforms(Schema(m), Sample(Schema(m), 1))
ASSUME Value(BlockS, Sample(BlockS, 1)) # Value(BlockS, Sample(BlockS, 2))
=============================================================================
