----------------------------- MODULE MC_Script -----------------------------
(* Scripts built from every short sequence of items over a boundary alphabet: *)
(* what is parsed back is what was put in.  Each behaviour is emitted and     *)
(* replayed on the real builder and reader.                                   *)
EXTENDS Script, Json
CONSTANTS MaxLen, Wide, Emit

Fill(n, x) == [k \in 1..n |-> IF k = 1 THEN x ELSE (k * 7 + x) % 256] \o << >>
Datas == { << >>, <<0>>, <<1>>, <<16>>, <<17>>, <<127>>, <<128>>, <<129>>, <<130>>, <<255>>, <<0, 0>>, <<1, 0>>, <<129, 0>> }
         \cup { Fill(n, 5) : n \in {20, 33, 75, 76, 77} }
         \cup (IF Wide THEN { Fill(n, 9) : n \in {2, 74, 78, 80, 254, 255, 256, 257} } ELSE { Fill(255, 3), Fill(256, 3) })
Ints == { "0", "1", "-1", "2", "16", "17", "-2", "127", "128", "-127", "-128", "255", "256", "32767", "32768", "-32768",
          "2147483647", "2147483648", "-2147483648", "9223372036854775807", "-9223372036854775808" }
         \cup (IF Wide THEN {"15", "-16", "-17", "129", "-129", "-255", "-256", "65535", "65536", "8388607", "8388608", "-8388608", "4294967295", "4294967296", "-4294967296"} ELSE {})
Ops == {118, 169, 136, 172, 99, 104, 106, 174} \cup (IF Wide THEN {0, 79, 81, 96, 100, 103, 110, 147, 173, 175} ELSE {})
Items == { [k |-> "data", d |-> d] : d \in Datas } \cup { [k |-> "int", v |-> v] : v \in Ints } \cup { [k |-> "op", op |-> o] : o \in Ops }

ItemBytes(i) == CASE i.k = "data" -> PushData(i.d) [] i.k = "int" -> PushInt(BigDec(i.v)) [] OTHER -> <<i.op>>

VARIABLE items
Init == items = << >>
Next == Len(items) < MaxLen /\ \E i \in Items : items' = Append(items, i)
Spec == Init /\ [][Next]_items

P == FlatCat([k \in 1..Len(items) |-> ItemBytes(items[k])] \o << >>)
Q == Parse(P)
\* One instruction per item, carrying its value
Carries(i, x) ==
  CASE i.k = "op" -> x.op = i.op /\ x.data = << >>
    [] i.k = "int" -> PushedValue(x) = NumEncode(BigDec(i.v)) /\ NumDecode(PushedValue(x)) = BigDec(i.v)
    [] OTHER -> PushedValue(x) = IF i.d = <<0>> THEN << >> ELSE i.d
RoundTrip == Q.ok /\ Len(Q.ins) = Len(items) /\ \A k \in 1..Len(items) : Carries(items[k], Q.ins[k])
\* no push could be shorter
PushSize(v) == CASE v = << >> -> 1 [] v = <<129>> -> 1 [] Len(v) = 1 /\ v[1] \in 1..16 -> 1
                 [] Len(v) <= 75 -> 1 + Len(v) [] Len(v) <= 255 -> 2 + Len(v) [] OTHER -> 3 + Len(v)
Shortest == \A k \in 1..Len(items) : items[k].k # "op" => Len(ItemBytes(items[k])) = PushSize(PushedValue(Q.ins[k]))
\* re-serialising is the identity; removing an opcode removes its instructions only
Reserial == FlatCat([k \in 1..Len(Q.ins) |-> InstrBytes(Q.ins[k])] \o << >>) = P
Removes == \A op \in {118, 172, 0, 76} :
             Parse(RemoveOp(P, op)).ins = SelectSeq(Q.ins, LAMBDA x : x.op # op)
\* a template is recognised as what it is
H20 == Fill(20, 5)
TypesDisjoint == /\ Classify(P2PKH(H20)).t = "p2pkh" /\ Classify(P2SH(H20)).t = "p2sh"
                 /\ Classify(P2WPKH(H20)).t = "p2wpkh" /\ Classify(P2WSH(Fill(32, 5))).t = "p2wsh"
                 /\ (items # << >> => \A t \in {P2PKH(H20), P2SH(H20), P2WPKH(H20), P2WSH(Fill(32, 5))} :
                                         Classify(t \o P).t \in {"unknown"})

CallOf(i) == CASE i.k = "data" -> [op |-> "data", a |-> [d |-> Hx(i.d)], r |-> [same |-> TRUE]]
               [] i.k = "int" -> [op |-> "int", a |-> [v |-> i.v], r |-> [x \in {} |-> 0]]
               [] OTHER -> [op |-> "op", a |-> [op |-> i.op], r |-> [x \in {} |-> 0]]
EmitCase == (Emit /\ Len(items) > 0) =>
  EmitLine(ToJson([init |-> [x |-> 0],
    ev |-> [k \in 1..Len(items) |-> CallOf(items[k])] \o
           << [op |-> "script", a |-> [x |-> 0], r |-> [ok |-> TRUE, s |-> Hx(P), prev |-> << >>]],
              [op |-> "parse", a |-> [p |-> Hx(P)],
               r |-> [ok |-> TRUE, same |-> TRUE, ins |-> [k \in 1..Len(Q.ins) |-> [op |-> Q.ins[k].op, d |-> Hx(Q.ins[k].data)]] \o << >>]],
              [op |-> "remove", a |-> [p |-> Hx(P), op |-> Q.ins[1].op], r |-> [same |-> TRUE, s |-> Hx(RemoveOp(P, Q.ins[1].op))]],
              [op |-> "disasm", a |-> [p |-> Hx(P)], r |-> [s |-> Disasm(P)]] >>]))

\* script numbers, exhaustively over small byte strings and a range of integers
ASSUME \A b \in UNION { [1..n -> {0, 1, 2, 126, 127, 128, 129, 254, 255}] : n \in 0..4 } :
         LET c == b \o << >> IN
         /\ NumMinimal(c) => NumEncode(NumDecode(c)) = c
         /\ ~NumMinimal(c) => NumEncode(NumDecode(c)) # c
ASSUME \A n \in -70000..70000 : LET b == NumEncode(Big(n)) IN NumMinimal(b) /\ NumDecode(b) = Big(n) /\ (AsBool(b) <=> n # 0)
=============================================================================
