------------------------------ MODULE MsgSpec ------------------------------
(* One message object, changed, encoded, decoded into and reported on.        *)
EXTENDS Msg, StepLib
Has(r, f) == f \in DOMAIN r
Digest(b) == Hx(Sha256(b))
\* s = [m, cmd]: the message and its command; s.m.t = "none": its contents are not specified
MInit(init) == [m |-> [t |-> "none", f |-> [x |-> 0]], cmd |-> ""]
NetPort(net) == IF net = "main" THEN 8333 ELSE 18333
Loopback == Rep(0, 10) \o <<255, 255, 127, 0, 0, 1>>
Fresh(t, a, e) ==
  CASE t = "version" -> [ver |-> "70015", serv |-> "0", time |-> IF Has(e.r, "f") THEN e.r.f.time ELSE "0", servyou |-> "0", addryou |-> Hx(Loopback), portyou |-> NetPort(a.net),
                         servme |-> "0", addrme |-> Hx(Loopback), portme |-> NetPort(a.net), nonce |-> "0", ua |-> Hx(StrToBytes("/tokucore:0.0.1/")), last |-> "1", relay |-> 0]
    [] t = "verack" -> [x |-> 0]
    [] t \in {"inv", "getdata", "headers"} -> [items |-> << >>]
    [] t \in {"ping", "pong"} -> [nonce |-> a.nonce]
    [] t = "getheaders" -> [ver |-> "70015", items |-> << >>, stop |-> Hx(ZeroHash)]
    [] t = "reject" -> [cmd |-> a.rcmd, code |-> a.code, reason |-> a.reason, hash |-> ""]
    [] t = "tx" -> [data |-> a.data]
    [] OTHER -> [data |-> ""]
Limit(t) == CASE t \in {"inv", "getdata"} -> MaxInv [] t = "headers" -> MaxHeaders [] t = "getheaders" -> MaxLocators
\* a message whose hash is missing has no layout
Sound(m) == (m.t = "reject" => (HasHash(m.f.cmd) <=> m.f.hash # ""))
\* what it decodes to: no locators stand for the zero hash
Canon(m) == IF m.t = "getheaders" /\ m.f.items = << >> THEN [m EXCEPT !.f.items = <<Hx(ZeroHash)>>] ELSE m
MStep(s, e) ==
  LET a == e.a
      m == s.m
      x == [x |-> 0]
      put(t, f, r) == Into([s EXCEPT !.m = [t |-> t, f |-> f]], e, r)
  IN CASE e.op = "new" -> LET f == Fresh(TypeOf(a.cmd), a, e) IN Into([m |-> [t |-> TypeOf(a.cmd), f |-> f], cmd |-> a.cmd], e, [cmd |-> a.cmd, f |-> f])
       [] e.op = "set" -> put(m.t, a.f, x)
       [] e.op = "add" -> LET ok == Len(m.f.items) + Len(a.items) <= Limit(m.t) IN
                          IF ok THEN Into([s EXCEPT !.m.f.items = @ \o a.items], e, [ok |-> TRUE]) ELSE Same(s, e, [ok |-> FALSE])
       \* n copies of one item, one call each or all in one
       [] e.op = "addn" -> LET room == Limit(m.t) - Len(m.f.items)
                               n == IF a.n <= room THEN a.n ELSE IF a.once THEN 0 ELSE room
                           IN Into([s EXCEPT !.m.f.items = @ \o Rep(a.item, n)], e, [added |-> n])
       [] e.op = "enc" -> LET b == Encode(m) IN Same(s, e, [b |-> Hx(b), size |-> Len(b), cmd |-> s.cmd])
       [] e.op = "digest" -> LET b == Encode(m) IN Same(s, e, [d |-> Digest(b), size |-> Len(b)])
       [] e.op = "dec" ->
            LET b == Un(a.b)
                d == Decode(m.t, b)
                \* bytes that no message encodes to (something behind, padded numbers, transaction counts): either way
                exact == d.ok /\ Encode(d.m) = b
                ok == IF d.ok /\ ~exact /\ Has(e.r, "ok") THEN e.r.ok ELSE d.ok
            IN IF ok THEN put(m.t, d.m.f, [ok |-> TRUE, f |-> d.m.f]) ELSE Into([s EXCEPT !.m = [t |-> m.t, f |-> [x |-> 0]]], e, [ok |-> FALSE])
       \* its own encoding, decoded into a new object (or this one): the same fields
       [] e.op = "round" -> LET r == Canon(m) IN Into([s EXCEPT !.m = r], e, [ok |-> TRUE, n |-> IF Has(r.f, "items") THEN Len(r.f.items) ELSE 0, f |-> IF a.brief THEN x ELSE r.f])
       [] e.op = "get" -> Same(s, e, [f |-> m.f])
       [] e.op = "hash" -> Same(s, e, [h |-> Hx(BlockHash(a)), size |-> 80])
=============================================================================
