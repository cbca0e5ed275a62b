----------------------------- MODULE StreamSpec -----------------------------
(* Connections: what concurrent senders put on the wire, and what a receive    *)
(* loop makes of the bytes that arrive.                                        *)
EXTENDS Msg, StepLib
Has(r, f) == f \in DOMAIN r

(* s = [magic, wire, alts, sent, in]                                           *)
(*   alts:  the possible queues - for every sender the frames it has begun to   *)
(*          send, in order.  There is more than one possibility when two        *)
(*          senders send the same frame.                                        *)
(*   wire:  what is on the wire of the frame being written                      *)
(*   sent:  frames completely written, in order                                 *)
(*   in:    bytes that arrived at the receiving side of a raw connection        *)
Magic(net) == IF net = "main" THEN <<249, 190, 180, 217>> ELSE <<11, 17, 9, 7>>
PInit(init) == [magic |-> Magic(init.net), wire |-> << >>, alts |-> {Rep(<< >>, init.senders)}, sent |-> << >>, in |-> << >>]

Canon2(m) == IF m.t = "getheaders" /\ m.f.items = << >> THEN [m.f EXCEPT !.items = <<Hx(ZeroHash)>>] ELSE m.f
FrameFor(s, m) == Frame(s.magic, m.cmd, Encode([t |-> TypeOf(m.cmd), f |-> m.f]))
Msg0(m) == [cmd |-> m.cmd, f |-> Canon2([t |-> TypeOf(m.cmd), f |-> m.f])]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Heads(q) == { k \in 1..Len(q) : q[k] # << >> }
Ready(q, w) == { k \in Heads(q) : IsPre(q[k][1].b, w) }
RECURSIVE Settle(_)
\* complete frames leave the wire
Settle(s) ==
  LET done == { q \in s.alts : Ready(q, s.wire) # {} } IN
  IF done = {} THEN s
  ELSE LET q == CHOOSE x \in done : TRUE
           h == q[CHOOSE k \in Ready(q, s.wire) : TRUE][1]
       IN Settle([s EXCEPT !.wire = Drop(s.wire, Len(h.b)), !.sent = Append(@, h.m),
                           !.alts = UNION { { [x EXCEPT ![k] = Tail(@)] : k \in Ready(x, s.wire) } : x \in done }])
\* the rest is the beginning of the next frame of some sender
Whole(s) == s.wire = << >> \/ \E q \in s.alts : \E k \in Heads(q) : IsPre(s.wire, q[k][1].b)
AllSent(s) == \E q \in s.alts : Heads(q) = {}

(* ---- the receiving side ---- *)
\* the frame at the beginning of the bytes: [ok, cmd, p, n] (n: its length)
RdFrame(magic, b) ==
  IF Len(b) < 24 THEN [ok |-> FALSE]
  ELSE IF SubSeq(b, 1, 4) # magic THEN [ok |-> FALSE]
  ELSE LET size == BigOfLE(SubSeq(b, 17, 20)) IN
       IF BLt(Big(MaxPayload), size) THEN [ok |-> FALSE]
       ELSE LET n == BigToInt(size) IN
            IF n > Len(b) - 24 THEN [ok |-> FALSE]
            ELSE LET p == SubSeq(b, 25, 24 + n) IN
                 IF Checksum(p) # SubSeq(b, 21, 24) THEN [ok |-> FALSE]
                 ELSE [ok |-> TRUE, cmd |-> SubSeq(b, 5, 16), p |-> p, n |-> 24 + n]
RECURSIVE Trimmed(_)
Trimmed(c) == IF c = << >> THEN c ELSE IF c[Len(c)] = 0 THEN Trimmed(SubSeq(c, 1, Len(c) - 1)) ELSE c
RECURSIVE Receive(_, _, _)
\* the messages delivered from the bytes; seen: what was observed (decides where the layout allows both)
Receive(magic, b, seen) ==
  LET r == RdFrame(magic, b) IN
  IF ~r.ok THEN << >>
  ELSE LET c == BytesToStr(Trimmed(r.cmd))
           d == Decode(TypeOf(c), r.p)
           exact == d.ok /\ Encode(d.m) = r.p
       IN IF ~d.ok \/ (~exact /\ seen = << >>) THEN << >>
          ELSE <<[cmd |-> c, f |-> d.m.f]>> \o Receive(magic, Drop(b, r.n), IF seen = << >> THEN << >> ELSE Tail(seen))
\* messages of one sender among those delivered
Of(msgs, got) == LET S == { msgs[k] : k \in 1..Len(msgs) } IN SelectSeq(got, LAMBDA g : g \in S)

PStep(s, e) ==
  LET a == e.a
      seen == IF Has(e.r, "got") THEN e.r.got ELSE << >>
  IN CASE e.op = "start" -> Into([s EXCEPT !.alts = { [q EXCEPT ![a.who] = Append(@, [b |-> FrameFor(s, a.m), m |-> Msg0(a.m)])] : q \in @ }], e, [x |-> 0])
       \* the next piece of bytes handed to the network
       [] e.op = "grant" -> IF ~Has(e.r, "b")
                            \* generating: the frame begun earliest
                            THEN Same(s, e, [b |-> ""])
                            ELSE LET t == Settle([s EXCEPT !.wire = @ \o Un(e.r.b)]) IN [st |-> t, ok |-> e.r.stuck = FALSE /\ Whole(t), exp |-> [wire |-> Hx(t.wire), stuck |-> FALSE]]
       \* everything is let through: all is sent, and delivered in the order of the wire
       [] e.op = "finish" -> IF ~Has(e.r, "b") THEN Same(s, e, [x |-> 0])
                             ELSE LET t == Settle([s EXCEPT !.wire = @ \o Un(e.r.b)]) IN
                                  [st |-> [t EXCEPT !.sent = << >>], ok |-> t.wire = << >> /\ AllSent(t) /\ e.r.errs = 0 /\ e.r.stuck = FALSE /\ e.r.got = t.sent,
                                   exp |-> [got |-> t.sent, wire |-> Hx(t.wire), errs |-> 0, stuck |-> FALSE]]
       \* both ends notice, once
       [] e.op = "close" -> Same(s, e, [near |-> 1, far |-> 1, more |-> 0, send |-> FALSE])
       [] e.op = "bytes" -> Into([s EXCEPT !.in = @ \o Un(a.b)], e, [x |-> 0])
       [] e.op = "big" -> Into([s EXCEPT !.in = << >>], e, [got |-> IF a.n <= MaxPayload /\ a.good THEN 1 ELSE 0, disc |-> 1])
       [] e.op = "eof" -> LET got == Receive(s.magic, s.in, seen) IN Same(s, e, [got |-> got, disc |-> 1, last |-> TRUE])
       \* concurrent senders without any control: each one's messages arrive in its order
       [] e.op = "burst" -> IF ~Has(e.r, "got") THEN Same(s, e, [x |-> 0])
                            ELSE LET want == [k \in 1..Len(a.from) |-> [j \in 1..Len(a.from[k]) |-> a.from[k][j]] \o << >>] \o << >> IN
                                 Holds(s, /\ e.r.errs = 0
                                          /\ Len(e.r.got) = FoldLeft(LAMBDA n, q : n + Len(q), 0, want)
                                          /\ \A k \in 1..Len(want) : Of(want[k], e.r.got) = want[k], [each |-> want])
       \* the network fails after some bytes: an error, at once and ever after, and only whole messages are delivered
       [] e.op = "broken" -> LET fr == FlatCat([k \in 1..Len(a.ms) |-> FrameFor(s, a.ms[k])] \o << >>)
                                 ends == [k \in 0..Len(a.ms) |-> Len(FlatCat([j \in 1..k |-> FrameFor(s, a.ms[j])] \o << >>))]
                                 whole == { k \in 0..Len(a.ms) : ends[k] <= a.n }
                                 n == CHOOSE k \in whole : \A j \in whole : j <= k
                             IN Same(s, e, [oks |-> [k \in 1..Len(a.ms) |-> k <= n] \o << >>, got |-> [k \in 1..n |-> Msg0(a.ms[k])] \o << >>, disc |-> 1])
       [] e.op = "bigsend" -> Same(s, e, [ok |-> a.n <= MaxPayload, n |-> IF a.n <= MaxPayload THEN 24 + a.n ELSE 0])
       [] e.op = "toolong" -> Same(s, e, [ok |-> FALSE, wire |-> ""])
=============================================================================
