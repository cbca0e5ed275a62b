------------------------------ MODULE RpcSpec ------------------------------
(* The RPC client: what it sends, and what it makes of a reply.               *)
(*                                                                            *)
(* A JSON value is [k |-> "null" | "bool" | "str" (s: hex of UTF-8) |          *)
(* "int" (s: decimal text) | "flt" (s: decimal text with a fraction) |         *)
(* "list" (e) | "obj" (f: a list of [n, v])].                                  *)
EXTENDS Bytes, StepLib
Has(r, f) == f \in DOMAIN r

IntS(lo, hi) == [k |-> "int", lo |-> lo, hi |-> hi]
I32 == IntS("-2147483648", "2147483647")
I64 == IntS("-9223372036854775808", "9223372036854775807")
U32 == IntS("0", "4294967295")
U64 == IntS("0", "18446744073709551615")
Str == [k |-> "str"]
Flt == [k |-> "flt"]
ListS(e) == [k |-> "list", e |-> e]
ObjS(f) == [k |-> "obj", f |-> f]

HeaderS == ObjS(<< <<"hash", Str>>, <<"confirmations", I64>>, <<"height", I64>>, <<"version", I64>>, <<"versionHex", Str>>, <<"merkleroot", Str>>, <<"time", U64>>, <<"mediantime", I64>>,
                   <<"nonce", I64>>, <<"bits", Str>>, <<"difficulty", Flt>>, <<"chainwork", Str>>, <<"previousblockhash", Str>>, <<"nextblockhash", Str>> >>)
ScriptSigS == ObjS(<< <<"asm", Str>>, <<"hex", Str>> >>)
VinS == ObjS(<< <<"coinbase", Str>>, <<"txid", Str>>, <<"vout", I64>>, <<"scriptSig", ScriptSigS>>, <<"sequence", U32>> >>)
PubKeyS == ObjS(<< <<"asm", Str>>, <<"hex", Str>>, <<"reqSigs", I64>>, <<"type", Str>>, <<"addresses", ListS(Str)>> >>)
VoutS == ObjS(<< <<"value", Flt>>, <<"n", I64>>, <<"scriptPubKey", PubKeyS>> >>)
TxS == ObjS(<< <<"hex", Str>>, <<"txid", Str>>, <<"version", I32>>, <<"size", U32>>, <<"vsize", U32>>, <<"weight", U32>>, <<"locktime", U32>>, <<"vin", ListS(VinS)>>, <<"vout", ListS(VoutS)>> >>)
BlockS == ObjS(<< <<"hash", Str>>, <<"confirmations", U64>>, <<"strippedsize", I32>>, <<"size", I32>>, <<"weight", I32>>, <<"height", I64>>, <<"version", I32>>, <<"versionHex", Str>>,
                  <<"merkleroot", Str>>, <<"tx", ListS(TxS)>>, <<"nTx", U32>>, <<"time", I64>>, <<"nonce", U32>>, <<"bits", Str>>, <<"difficulty", Flt>>, <<"chainwork", Str>>,
                  <<"previousblockhash", Str>>, <<"nextblockhash", Str>> >>)
Schema(m) == CASE m = "getblockhash" -> Str [] m = "getblockcount" -> I64 [] m = "getblockheader" -> HeaderS [] m = "getblock" -> BlockS

RECURSIVE Zero(_)
Zero(s) == CASE s.k = "str" -> "" [] s.k \in {"int", "flt"} -> "0" [] s.k = "list" -> << >>
             [] OTHER -> [n \in { s.f[j][1] : j \in 1..Len(s.f) } |-> Zero((CHOOSE p \in { s.f[j] : j \in 1..Len(s.f) } : p[1] = n)[2])]
Fits(s, t) == BLeq(BigDec(s.lo), BigDec(t)) /\ BLeq(BigDec(t), BigDec(s.hi))
RECURSIVE Conforms(_, _)
\* does the value have the type?  Fields may be missing, and others may be there
Conforms(s, v) ==
  CASE s.k = "str" -> v.k = "str"
    [] s.k = "int" -> v.k = "int" /\ Fits(s, v.s)
    [] s.k = "flt" -> v.k \in {"int", "flt"}
    [] s.k = "list" -> v.k = "list" /\ \A j \in 1..Len(v.e) : Conforms(s.e, v.e[j])
    [] OTHER -> v.k = "obj" /\ \A j \in 1..Len(v.f) : \A i \in 1..Len(s.f) : s.f[i][1] = v.f[j].n => Conforms(s.f[i][2], v.f[j].v)
RECURSIVE Value(_, _)
Value(s, v) ==
  CASE s.k \in {"str", "int", "flt"} -> v.s
    [] s.k = "list" -> [j \in 1..Len(v.e) |-> Value(s.e, v.e[j])] \o << >>
    [] OTHER -> [n \in { s.f[j][1] : j \in 1..Len(s.f) } |->
                   LET sub == (CHOOSE p \in { s.f[j] : j \in 1..Len(s.f) } : p[1] = n)[2]
                       at == { j \in 1..Len(v.f) : v.f[j].n = n }
                   IN IF at = {} THEN Zero(sub) ELSE Value(sub, v.f[CHOOSE j \in at : TRUE].v)]

\* the request: method, positional parameters, credentials
ParamsOf(m, arg) == CASE m = "getblockhash" -> <<[k |-> "int", s |-> arg]>>
                      [] m = "getblockcount" -> << >>
                      [] m = "getblockheader" -> <<[k |-> "str", s |-> arg]>>
                      [] m = "getblock" -> <<[k |-> "str", s |-> arg], [k |-> "int", s |-> "3"]>>
Request(s, a) == [m |-> a.m, params |-> ParamsOf(a.m, a.arg), user |-> s.user, pass |-> s.pass, post |-> TRUE]

\* the reply [status, id, err, body, res]:
\*   id: "same" | "other" | "none" | "null"; err: "none" | "null" | "obj" | "empty" | "bad"; body: "whole" | "cut" | "tail" | "list" | "null" | "empty" | "text" | "short" | "drop" | "hang"
\*   ("short": the connection ends before the announced length; "drop": no reply at all; "hang": none within the client's time)
Outcome(m, p) ==
  IF p.status >= 300 \/ p.body # "whole" \/ p.id = "other" \/ p.err \in {"obj", "empty", "bad"} THEN "error"
  ELSE IF p.res.k \in {"null", "none"} \/ ~Conforms(Schema(m), p.res) THEN "error"
  ELSE IF p.id # "same" \/ p.status # 200 THEN "either"
  ELSE "value"
RpcResult(a) == [ok |-> TRUE, v |-> Value(Schema(a.m), a.reply.res)]
Failed == [ok |-> FALSE]
Allowed(a) == LET o == Outcome(a.m, a.reply) IN
              IF o = "error" THEN {Failed} ELSE IF o = "value" THEN {RpcResult(a)} ELSE {Failed, RpcResult(a)}

\* s = [user, pass]
RInit(init) == [user |-> init.user, pass |-> init.pass]
RStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "call" -> LET want == { x @@ [req |-> Request(s, a)] : x \in Allowed(a) } IN
                        Holds(s, e.r \in want, CHOOSE x \in want : TRUE)
    \* calls at the same time: each gets the answer to its own request
    [] e.op = "many" -> LET want == [j \in 1..Len(a.calls) |-> { x @@ [req |-> Request(s, a.calls[j])] : x \in Allowed(a.calls[j]) }] \o << >> IN
                        Holds(s, /\ Has(e.r, "all") /\ Len(e.r.all) = Len(want)
                                 /\ \A j \in 1..Len(want) : e.r.all[j] \in want[j], [all |-> [j \in 1..Len(want) |-> CHOOSE x \in want[j] : TRUE] \o << >>])
    \* nobody listens
    [] e.op = "refused" -> Same(s, e, [ok |-> FALSE])
=============================================================================
