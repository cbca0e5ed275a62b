------------------------------ MODULE VMTrace ------------------------------
(* Executions of the real script engine, replayed on VM.tla.                 *)
EXTENDS VM, StubEnv, TraceRun

EnvOf(init) == [mode |-> init.mode, acc |-> init.acc]
VInit(init) == [env |-> EnvOf(init), stk |-> << >>]

\* a data stack on its own: [st, ok, val]
StkErr(s) == [s |-> s, ok |-> FALSE, v |-> << >>]
StkOk(s, v) == [s |-> s, ok |-> TRUE, v |-> v]
StkCut(s, n) == SubSeq(s, 1, Len(s) - n)
StkOp(s, op, a) ==
  CASE op = "push" -> StkOk(Append(s, Un(a.v)), << >>)
    [] op = "pushint" -> StkOk(Append(s, NumEncode(BigDec(a.v))), << >>)
    [] op = "pushbool" -> StkOk(Append(s, IF a.b THEN <<1>> ELSE << >>), << >>)
    [] op = "pop" -> IF s = << >> THEN StkErr(s) ELSE StkOk(StkCut(s, 1), Last(s))
    [] op = "popint" -> IF s = << >> THEN StkErr(s)
                        ELSE IF NumOk(Last(s), 4) THEN StkOk(StkCut(s, 1), NumEncode(NumDecode(Last(s)))) ELSE StkErr(StkCut(s, 1))
    [] op = "popbool" -> IF s = << >> THEN StkErr(s) ELSE StkOk(StkCut(s, 1), IF AsBool(Last(s)) THEN <<1>> ELSE << >>)
    [] op = "peek" -> IF a.n < 0 \/ a.n >= Len(s) THEN StkErr(s) ELSE StkOk(s, s[Len(s) - a.n])
    [] op = "dup" -> IF a.n < 1 \/ a.n > Len(s) THEN StkErr(s) ELSE StkOk(s \o SubSeq(s, Len(s) - a.n + 1, Len(s)), << >>)
    [] op = "drop" -> IF a.n < 1 \/ a.n > Len(s) THEN StkErr(s) ELSE StkOk(StkCut(s, a.n), << >>)
    [] op = "swap" -> IF a.n < 1 \/ 2 * a.n > Len(s) THEN StkErr(s)
                      ELSE StkOk(StkCut(s, 2 * a.n) \o SubSeq(s, Len(s) - a.n + 1, Len(s)) \o SubSeq(s, Len(s) - 2 * a.n + 1, Len(s) - a.n), << >>)
    [] op = "clean" -> StkOk(<< >>, << >>)
\* what is left after a failed operation on several elements is unspecified;
\* the recorder says what it found and the session goes on from there
VStep(s, e) ==
  CASE e.op = "exec" ->
         LET p == Un(e.a.p)
             ok == ExecOk(s.env, p)
             tr == IF e.a.dbg THEN ExecTrace(s.env, p) ELSE << >>
         IN [st |-> s, ok |-> (e.r.ok = ok /\ (e.a.dbg => TraceMatches(e.r.tr, tr))), exp |-> [ok |-> ok, tr |-> tr]]
    [] e.op = "verify" ->
         LET u == Un(e.a.u)
             l == Un(e.a.l)
             ok == VerifyOk(s.env, u, l)
             tr == IF e.a.dbg THEN VerifyTrace(s.env, u, l) ELSE << >>
         IN [st |-> s, ok |-> (e.r.ok = ok /\ ~e.r.mod /\ (e.a.dbg => TraceMatches(e.r.tr, tr))), exp |-> [ok |-> ok, tr |-> tr]]
    [] e.op = "stack" ->
         LET q == StkOp(s.stk, e.a.op, e.a)
             after == [k \in 1..Len(e.r.s) |-> Un(e.r.s[k])] \o << >>
             want == IF q.ok THEN q.s ELSE after
         IN [st |-> [s EXCEPT !.stk = after],
             ok |-> (/\ e.r.ok = q.ok
                     /\ after = want
                     /\ (q.ok => e.r.v = Hx(q.v))
                     /\ e.r.depth = Len(after)
                     /\ e.r.str = StackStr(after)),
             exp |-> [ok |-> q.ok, s |-> [k \in 1..Len(want) |-> Hx(want[k])] \o << >>]]
=============================================================================
