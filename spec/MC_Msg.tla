------------------------------- MODULE MC_Msg -------------------------------
(* Messages of every type over boundary values of every field, their encodings *)
(* with every truncation and false counts, and object reuse.                   *)
EXTENDS MsgSpec, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
U32 == {"0", "1", "4294967295", "305419896"}
U64 == {"0", "18446744073709551615", "81985529216486895"}
H(k) == Hx([j \in 1..32 |-> (k + j) % 256] \o << >>)
V0 == [ver |-> "70015", serv |-> "1", time |-> "2", servyou |-> "3", addryou |-> Hx(Rep(5, 16)), portyou |-> 8333, servme |-> "4", addrme |-> Hx(Rep(6, 16)), portme |-> 18333,
       nonce |-> "7", ua |-> Hx(StrToBytes("/x/")), last |-> "9", relay |-> 1]
\* one field at a time
Versions == {V0} \cup { [V0 EXCEPT !.ver = x] : x \in U32 } \cup { [V0 EXCEPT !.serv = x] : x \in U64 } \cup { [V0 EXCEPT !.time = x] : x \in U64 } \cup { [V0 EXCEPT !.servyou = x] : x \in U64 }
            \cup { [V0 EXCEPT !.servme = x] : x \in U64 } \cup { [V0 EXCEPT !.nonce = x] : x \in U64 } \cup { [V0 EXCEPT !.portyou = x] : x \in {0, 1, 256, 65535} }
            \cup { [V0 EXCEPT !.portme = x] : x \in {0, 1, 256, 65535} } \cup { [V0 EXCEPT !.last = x] : x \in U32 } \cup { [V0 EXCEPT !.relay = x] : x \in {0, 255} }
            \cup { [V0 EXCEPT !.ua = Hx(Rep(65, n))] : n \in {0, 1, 252, 253, 300} } \cup { [V0 EXCEPT !.addryou = Hx(Rep(255, 16))], [V0 EXCEPT !.addrme = Hx(Rep(0, 16))] }
Rejects == { [cmd |-> Hx(StrToBytes(c)), code |-> k, reason |-> Hx(Rep(97, n)), hash |-> IF c \in {"tx", "block"} THEN H(3) ELSE ""] :
             c \in {"tx", "block", "", "version", "txs"}, k \in {0, 16, 255}, n \in {0, 1, 252, 253} }
Inv(t, k) == [t |-> t, h |-> H(k)]
Hdr(k, x) == [v |-> x, prev |-> H(k), root |-> H(k + 50), time |-> IntToStr(k), bits |-> "486604799", nonce |-> x]
ItemLists(t) == CASE t = "headers" -> { << >>, <<Hdr(1, "1")>>, <<Hdr(1, "0"), Hdr(2, "4294967295")>>, Rep(Hdr(3, "7"), 3) }
                  [] t = "getheaders" -> { << >>, <<H(1)>>, <<H(1), H(2), H(3)>>, <<Hx(ZeroHash)>> }
                  [] OTHER -> { << >>, <<Inv("1", 1)>>, <<Inv("0", 1), Inv("4294967295", 2)>>, <<Inv("2", 3), Inv("2", 3), Inv("3", 4)>> }
                              \cup (IF Deep THEN { Rep(Inv("1", 9), 252), Rep(Inv("1", 9), 253) } ELSE {})
Lists == {"inv", "getdata", "headers", "getheaders"}
GInits == { [t |-> "version", f |-> f] : f \in Versions } \cup { [t |-> "reject", f |-> f] : f \in Rejects }
          \cup { [t |-> t, f |-> [nonce |-> x]] : t \in {"ping", "pong"}, x \in U64 }
          \cup UNION { { [t |-> t, f |-> [items |-> l]] : l \in ItemLists(t) } : t \in Lists }
          \cup { [t |-> t, f |-> [data |-> d]] : t \in {"tx"}, d \in {"", "00", Hx(Rep(200, 300))} }
          \cup { [t |-> t, f |-> [x |-> 0]] : t \in {"verack", "block", "getblocks"} }
NewArgs == [cmd |-> ini.t, net |-> "main", nonce |-> "5", rcmd |-> "7478", code |-> 1, reason |-> "", data |-> ""]
Setup == IF ini.t \in Lists THEN IF ini.f.items = << >> THEN << >>
                                 ELSE IF ini.t = "getheaders" THEN [k \in 1..Len(ini.f.items) |-> Rec("add", [items |-> <<ini.f.items[k]>>])] \o << >>
                                 ELSE <<Rec("add", [items |-> ini.f.items])>>
         ELSE IF ini.t \in {"verack", "block", "getblocks"} THEN << >>
         ELSE <<Rec("set", [f |-> ini.f])>>
\* the version message's own time is not known beforehand
Pre == <<Rec("new", NewArgs)>> \o Setup
K == Len(Pre)
M0 == [t |-> TypeOf(ini.t), f |-> IF ini.t \in {"block", "getblocks"} THEN [data |-> ""] ELSE IF ini.t = "getheaders" THEN [ver |-> "70015", items |-> ini.f.items, stop |-> Hx(ZeroHash)] ELSE ini.f]
E0 == Encode(M0)
Ints == 0..(Len(E0) - 1)
Cuts == IF Len(E0) < (IF Deep THEN 1000 ELSE 150) THEN Ints ELSE IF Len(E0) > 1000 THEN { n \in Ints : n < 12 \/ n % 299 = 0 \/ n > Len(E0) - 12 } ELSE { n \in Ints : n < 12 \/ n % 9 = 0 \/ n > Len(E0) - 12 }
At == IF ini.t = "getheaders" THEN 4 ELSE 0
BadCounts == IF ini.t \notin Lists THEN {}
             ELSE { SubSeq(E0, 1, At) \o c \o Drop(E0, At + 1) : c \in { VarInt(Limit(ini.t) + 1), VarInt(Limit(ini.t)), VarInt(Len(ini.f.items) + 2), <<255>> \o Rep(255, 8), <<255>> \o Rep(0, 7) \o <<128>>, <<255, 1, 0, 0, 0, 1, 0, 0, 0>>, <<254, 255, 255, 255, 127>> } }
GMoves(s, n) ==
  CASE n <= K -> {Pre[n]}
    [] n = K + 1 -> {Rec("enc", [x |-> 0])}
    [] n = K + 2 -> {Rec("round", [same |-> b, brief |-> FALSE]) : b \in BOOLEAN}
                    \cup (IF TypeOf(ini.t) \in {"other", "tx", "verack"} THEN {} ELSE { Rec("dec", [b |-> Hx(SubSeq(E0, 1, c))]) : c \in Cuts } \cup { Rec("dec", [b |-> Hx(b)]) : b \in BadCounts })
    [] n = K + 3 /\ hist[n - 1].op = "round" -> {Rec("enc", [x |-> 0])}
    [] OTHER -> {}
\* the constructor's time is the clock's: leave its result out
Done == Len(hist) > K
RoundTrip == Len(hist) = K + 1 => st.m = M0 /\ LET d == Decode(st.m.t, E0) IN d.ok /\ d.m = Canon(st.m) /\ Encode(d.m) = E0
Cut == Len(hist) = K + 2 /\ hist[K + 2].op = "dec" => ~Decode(TypeOf(ini.t), Un(hist[K + 2].a.b)).ok
Same2 == Len(hist) = K + 3 => hist[K + 3].r = hist[K + 1].r
\* no two messages of a type share an encoding
ASSUME \A a, b \in Versions : Encode([t |-> "version", f |-> a]) = Encode([t |-> "version", f |-> b]) => a = b
ASSUME \A a, b \in Rejects : Encode([t |-> "reject", f |-> a]) = Encode([t |-> "reject", f |-> b]) => a = b
=============================================================================
