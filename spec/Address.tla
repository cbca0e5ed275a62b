------------------------------ MODULE Address ------------------------------
(* Textual addresses of the four standard types on a network.                *)
EXTENDS Codec, Script

MainNet == [p |-> 0, s |-> 5, h |-> "bc"]
TestNet == [p |-> 111, s |-> 196, h |-> "tb"]
\* a network given by name, or spelled out
NetOf(n) == CASE n.name = "main" -> MainNet [] n.name = "test" -> TestNet [] OTHER -> [p |-> n.p, s |-> n.s, h |-> n.h]

HashLenOf(t) == IF t = "p2wsh" THEN 32 ELSE 20
LockOf(t, h) == CASE t = "p2pkh" -> P2PKH(h) [] t = "p2sh" -> P2SH(h) [] OTHER -> P2WPKH(h)
AddrText(t, h, net) ==
  CASE t = "p2pkh" -> B58CheckEncode(h, net.p)
    [] t = "p2sh" -> B58CheckEncode(h, net.s)
    [] OTHER -> LET r == SegwitEncode(StrToBytes(net.h), 0, h) IN IF r.ok THEN r.s ELSE << >>
\* [ok, t, h]
AddrDecode(x, net) ==
  LET ones == {k \in 1..Len(x) : x[k] = 49}
      one == IF ones = {} THEN 0 ELSE CHOOSE k \in ones : \A j \in ones : j <= k
      no == [ok |-> FALSE]
  IN IF one > 1 /\ Lower(SubSeq(x, 1, one - 1)) = StrToBytes(net.h)
     THEN LET r == SegwitDecode(x) IN
          IF ~r.ok THEN no
          ELSE IF r.ver # 0 THEN no
          ELSE [ok |-> TRUE, t |-> IF Len(r.p) = 20 THEN "p2wpkh" ELSE "p2wsh", h |-> r.p]
     ELSE LET r == B58CheckDecode(x) IN
          IF ~r.ok THEN no
          ELSE IF Len(r.b) # 20 THEN no
          ELSE IF r.ver = net.p THEN [ok |-> TRUE, t |-> "p2pkh", h |-> r.b]
          ELSE IF r.ver = net.s THEN [ok |-> TRUE, t |-> "p2sh", h |-> r.b]
          ELSE no
=============================================================================
