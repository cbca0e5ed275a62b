------------------------------ MODULE MC_Stream ------------------------------
(* Schedules of concurrent senders piece by piece, sequences of good and bad    *)
(* frames cut at every place, and a network that fails after every byte.        *)
EXTENDS StreamSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Ping(k) == [cmd |-> "ping", f |-> [nonce |-> IntToStr(k)]]
Odd(k) == [cmd |-> "odd", f |-> [data |-> Hx(Rep(k, 8))]]
Verack == [cmd |-> "verack", f |-> [x |-> 0]]
Tx == [cmd |-> "tx", f |-> [data |-> "0102030405"]]
M(net) == Magic(net)
F(net, m) == Frame(M(net), m.cmd, Encode([t |-> TypeOf(m.cmd), f |-> m.f]))
Flip(b, k) == [b EXCEPT ![k] = 255 - @]
\* frames and what is no frame
Good(net) == F(net, Ping(7))
Feed(net) == { Good(net), F(net, Verack), F(net, Odd(3)) }
Bad(net) == { F(IF net = "main" THEN "test" ELSE "main", Ping(7)), Flip(Good(net), 30), Flip(Good(net), 21), Flip(Good(net), 1), Flip(Good(net), 4),
              SubSeq(Good(net), 1, 20), SubSeq(Good(net), 1, 31), [Good(net) EXCEPT ![17] = 9], [Good(net) EXCEPT ![17] = 7], [Good(net) EXCEPT ![20] = 128],
              Frame(M(net), "ping", Rep(1, 7)), Frame(M(net), "inv", <<1>>), Frame(M(net), "version", Rep(0, 40)), <<0>> }
Gates == { [kind |-> "gate", net |-> n, senders |-> k, piece |-> p, frag |-> 5] : n \in {"main"}, k \in IF Deep THEN {2, 3} ELSE {2}, p \in IF Deep THEN {16} ELSE {16, 24} }
Most == IF Deep /\ ini.senders = 2 THEN 4 ELSE 3
Raws == { [kind |-> "raw", net |-> n, senders |-> 1, piece |-> 1, frag |-> f] : n \in {"main", "test"}, f \in IF Deep THEN {0, 1, 23} ELSE {0, 7} }
Brokens == { [kind |-> "broken", net |-> n, senders |-> 1, piece |-> 1, frag |-> 0] : n \in {"main", "test"} }
GInits == Gates \cup Raws \cup Brokens

Starts(h) == Len(SelectSeq(h, LAMBDA e : e.op = "start"))
Grants(h) == Len(SelectSeq(h, LAMBDA e : e.op = "grant"))
Ms == <<Ping(1), Tx, Verack>>
Cut == {1, 4, 16, 24, 28}
GMoves(s, n) ==
  CASE ini.kind = "gate" ->
         LET z == n > 1 /\ hist[n - 1].op = "finish"
             c == n > 1 /\ hist[n - 1].op = "close"
             k == Starts(hist)
         IN IF c THEN {} ELSE IF z THEN { Rec("close", [far |-> f]) : f \in {k % 2 = 0} }
            ELSE (IF k < Most THEN { Rec("start", [who |-> w, m |-> Ping(k + 1)]) : w \in 1..ini.senders } ELSE {})
                 \cup (IF Grants(hist) < 2 * k THEN { Rec("grant", [x |-> 0]) } ELSE {})
                 \cup (IF k = Most THEN { Rec("finish", [x |-> 0]) } ELSE {})
    [] ini.kind = "raw" ->
         IF n > 1 /\ hist[n - 1].op = "eof" THEN {}
         ELSE (IF n <= (IF Deep THEN 3 ELSE 2) THEN { Rec("bytes", [b |-> Hx(b)]) : b \in Feed(ini.net) \cup Bad(ini.net) } ELSE { Rec("eof", [x |-> 0]) })
              \cup (IF n = 2 THEN { Rec("eof", [x |-> 0]) } ELSE {})
              \* one good frame, cut
              \cup (IF n = 1 THEN { Rec("bytes", [b |-> Hx(SubSeq(Good(ini.net), 1, k))]) : k \in Cut } ELSE {})
              \cup (IF n = 2 /\ IsPre(Un(hist[1].a.b), Good(ini.net)) THEN { Rec("bytes", [b |-> Hx(Drop(Good(ini.net), Len(Un(hist[1].a.b))))]) } ELSE {})
    [] OTHER -> IF n > 1 THEN {} ELSE { Rec("broken", [ms |-> Ms, n |-> k]) : k \in 0..90 }
\* a message delivered is one whose frame is in the bytes, and nothing after a bad frame is delivered
Delivered == (ini.kind = "raw" /\ hist # << >> /\ hist[Len(hist)].op = "eof") =>
  LET got == hist[Len(hist)].r.got IN
  /\ FlatCat([k \in 1..Len(got) |-> F(ini.net, [cmd |-> got[k].cmd, f |-> got[k].f])] \o << >>) = SubSeq(st.in, 1, Len(FlatCat([k \in 1..Len(got) |-> F(ini.net, [cmd |-> got[k].cmd, f |-> got[k].f])] \o << >>)))
  /\ Len(got) <= Len(hist) - 1
  /\ (\A k \in 1..(Len(hist) - 1) : Un(hist[k].a.b) \in Feed(ini.net)) => Len(got) = Len(hist) - 1
  /\ (Un(hist[1].a.b) \in Bad(ini.net) /\ ~(IsPre(Un(hist[1].a.b), Good(ini.net)) \/ Len(Un(hist[1].a.b)) = 1)) => got = << >>
Partial == (ini.kind = "broken" /\ hist # << >>) => Len(hist[1].r.got) = Len(SelectSeq(hist[1].r.oks, LAMBDA x : x)) /\ \A k \in 1..3 : (k <= Len(hist[1].r.got)) = hist[1].r.oks[k]
=============================================================================
