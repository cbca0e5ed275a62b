---------------------------- MODULE AddressSpec ----------------------------
EXTENDS Address, StepLib
AInit(init) == [last |-> << >>]
Shown(d, net) == [ok |-> TRUE, t |-> d.t, h |-> Hx(d.h), s |-> BytesToStr(AddrText(d.t, d.h, net)), script |-> Hx(LockOf(d.t, d.h))]
AStep(s, e) ==
  LET a == e.a
      net == NetOf(a.net)
  IN CASE e.op = "mk" -> LET h == Un(a.h) IN
                         IF Len(h) # HashLenOf(a.t) THEN Same(s, e, [ok |-> FALSE, same |-> TRUE])
                         ELSE LET x == AddrText(a.t, h, net) IN
                              Into([s EXCEPT !.last = x], e, [ok |-> TRUE, h |-> a.h, s |-> BytesToStr(x), script |-> Hx(LockOf(a.t, h)), same |-> TRUE])
       [] e.op = "dec" -> LET d == AddrDecode(Un(a.s), net) IN Same(s, e, IF d.ok THEN Shown(d, net) ELSE [ok |-> FALSE])
       [] e.op = "lock" -> LET c == Classify(Un(a.p)) IN
                           Same(s, e, IF c.t \in {"err", "unknown"} THEN [ok |-> FALSE] ELSE Shown([t |-> c.t, h |-> c.hash], net))
=============================================================================
