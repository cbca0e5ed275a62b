-------------------------------- MODULE Msg --------------------------------
(* P2P messages: the wire layout of every type, and frames.                   *)
(*                                                                            *)
(* A message is [t, f]: its type and a record of its fields; numbers wider     *)
(* than 16 bits are decimal text, byte strings and text are hexadecimal.       *)
EXTENDS Bytes

MaxInv == 50000
MaxHeaders == 2000
MaxLocators == 500
MaxPayload == 33554432
Types == {"version", "verack", "inv", "ping", "pong", "getdata", "getheaders", "headers", "tx", "reject"}

ItemBytes(i) == LEDec(i.t, 4) \o Un(i.h)
HeaderBytes(h) == LEDec(h.v, 4) \o Un(h.prev) \o Un(h.root) \o LEDec(h.time, 4) \o LEDec(h.bits, 4) \o LEDec(h.nonce, 4)
BlockHash(h) == Hash256(HeaderBytes(h))
Port(n) == << (n \div 256) % 256, n % 256 >>           \* network byte order
Listed(Op(_), s) == VarInt(Len(s)) \o FlatCat([k \in 1..Len(s) |-> Op(s[k])] \o << >>)
HasHash(cmd) == Un(cmd) \in {StrToBytes("block"), StrToBytes("tx")}
ZeroHash == Rep(0, 32)
Header0(h) == HeaderBytes(h) \o <<0>>

Encode(m) ==
  LET f == m.f IN
  CASE m.t = "version" -> LEDec(f.ver, 4) \o LEDec(f.serv, 8) \o LEDec(f.time, 8)
                          \o LEDec(f.servyou, 8) \o Un(f.addryou) \o Port(f.portyou)
                          \o LEDec(f.servme, 8) \o Un(f.addrme) \o Port(f.portme)
                          \o LEDec(f.nonce, 8) \o VarBytes(Un(f.ua)) \o LEDec(f.last, 4) \o <<f.relay>>
    [] m.t = "verack" -> << >>
    [] m.t \in {"inv", "getdata"} -> Listed(ItemBytes, f.items)
    [] m.t \in {"ping", "pong"} -> LEDec(f.nonce, 8)
    [] m.t = "headers" -> Listed(Header0, f.items)
    \* from the beginning, if no block is known
    [] m.t = "getheaders" -> LEDec(f.ver, 4) \o Listed(Un, IF f.items = << >> THEN <<Hx(ZeroHash)>> ELSE f.items) \o Un(f.stop)
    [] m.t = "reject" -> VarBytes(Un(f.cmd)) \o <<f.code>> \o VarBytes(Un(f.reason)) \o (IF HasHash(f.cmd) THEN Un(f.hash) ELSE << >>)
    [] OTHER -> Un(f.data)

NoMsg == [ok |-> FALSE]
Num(b) == DecOfLE(b)
\* fixed-size fields one after another from offset at: the slices, or not ok
RdFixed(p, at, sizes) ==
  LET ends == [k \in 0..Len(sizes) |-> at + FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sizes, 1, k))]
  IN IF ends[Len(sizes)] > Len(p) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, at |-> ends[Len(sizes)], v |-> [k \in 1..Len(sizes) |-> SubSeq(p, ends[k - 1] + 1, ends[k])] \o << >>]
\* a count of at most max, then that many items of the size
RdItems(p, at, max, size) ==
  LET c == RdVarInt(p, at) IN
  IF ~c.ok THEN NoMsg
  ELSE IF BLt(Big(max), c.v) THEN NoMsg
  ELSE LET n == BigToInt(c.v) IN
       IF n * size > Len(p) - c.at THEN NoMsg
       ELSE [ok |-> TRUE, at |-> c.at + n * size, v |-> [k \in 1..n |-> Slice(p, c.at + (k - 1) * size, size)] \o << >>]
Item(b) == [t |-> Num(SubSeq(b, 1, 4)), h |-> Hx(SubSeq(b, 5, 36))]
HeaderOf(b) == [v |-> Num(SubSeq(b, 1, 4)), prev |-> Hx(SubSeq(b, 5, 36)), root |-> Hx(SubSeq(b, 37, 68)),
                time |-> Num(SubSeq(b, 69, 72)), bits |-> Num(SubSeq(b, 73, 76)), nonce |-> Num(SubSeq(b, 77, 80))]
Each(Op(_), s) == [k \in 1..Len(s) |-> Op(s[k])] \o << >>
Decode(t, p) ==
  LET is(f) == [ok |-> TRUE, m |-> [t |-> t, f |-> f]] IN
  CASE t = "version" ->
         LET a == RdFixed(p, 0, <<4, 8, 8, 8, 16, 2, 8, 16, 2, 8>>) IN
         IF ~a.ok THEN NoMsg
         ELSE LET u == RdVarBytes(p, a.at) IN
              IF ~u.ok THEN NoMsg
              ELSE LET z == RdFixed(p, u.at, <<4, 1>>)
                       v == a.v
                       port(b) == 256 * b[1] + b[2]
                   IN IF ~z.ok THEN NoMsg
                      ELSE is([ver |-> Num(v[1]), serv |-> Num(v[2]), time |-> Num(v[3]), servyou |-> Num(v[4]), addryou |-> Hx(v[5]), portyou |-> port(v[6]),
                               servme |-> Num(v[7]), addrme |-> Hx(v[8]), portme |-> port(v[9]), nonce |-> Num(v[10]), ua |-> Hx(u.v), last |-> Num(z.v[1]), relay |-> z.v[2][1]])
    [] t = "verack" -> is([x |-> 0])
    [] t \in {"inv", "getdata"} -> LET r == RdItems(p, 0, MaxInv, 36) IN IF r.ok THEN is([items |-> Each(Item, r.v)]) ELSE NoMsg
    [] t \in {"ping", "pong"} -> IF Len(p) < 8 THEN NoMsg ELSE is([nonce |-> Num(SubSeq(p, 1, 8))])
    [] t = "headers" -> LET r == RdItems(p, 0, MaxHeaders, 81) IN IF r.ok THEN is([items |-> Each(HeaderOf, r.v)]) ELSE NoMsg
    [] t = "getheaders" ->
         IF Len(p) < 4 THEN NoMsg
         ELSE LET r == RdItems(p, 4, MaxLocators, 32) IN
              IF ~r.ok THEN NoMsg
              ELSE LET z == RdFixed(p, r.at, <<32>>) IN
                   IF ~z.ok THEN NoMsg ELSE is([ver |-> Num(SubSeq(p, 1, 4)), items |-> Each(Hx, r.v), stop |-> Hx(z.v[1])])
    [] t = "reject" ->
         LET c == RdVarBytes(p, 0) IN
         IF ~c.ok THEN NoMsg
         ELSE LET k == RdFixed(p, c.at, <<1>>) IN
              IF ~k.ok THEN NoMsg
              ELSE LET r == RdVarBytes(p, k.at) IN
                   IF ~r.ok THEN NoMsg
                   ELSE LET h == RdFixed(p, r.at, IF HasHash(Hx(c.v)) THEN <<32>> ELSE << >>) IN
                        IF ~h.ok THEN NoMsg
                        ELSE is([cmd |-> Hx(c.v), code |-> k.v[1][1], reason |-> Hx(r.v), hash |-> IF HasHash(Hx(c.v)) THEN Hx(h.v[1]) ELSE ""])
    [] OTHER -> is([data |-> Hx(p)])

(* ---- frames ---- *)
Command(c) == LET b == StrToBytes(c) IN b \o Rep(0, 12 - Len(b))
Checksum(p) == SubSeq(Hash256(p), 1, 4)
Frame(magic, cmd, p) == magic \o Command(cmd) \o LE32(Len(p)) \o Checksum(p) \o p
\* the type a command selects
TypeOf(cmd) == IF cmd \in Types THEN cmd ELSE "other"
=============================================================================
