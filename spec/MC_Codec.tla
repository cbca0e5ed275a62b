------------------------------ MODULE MC_Codec ------------------------------
(* Every short history of buffer writes and reads, and the inverse laws and   *)
(* error detection of the text codecs over small alphabets.                   *)
EXTENDS CodecSpec, GenRun
CONSTANT Deep

Rec(op, a) == [op |-> op, a |-> a]
X == [x |-> 0]
Writes == { Rec("w8", [v |-> "253"]), Rec("w16", [v |-> "65279"]), Rec("w32", [v |-> "4278255615"]), Rec("w64", [v |-> "18446744073709551359"]),
            Rec("wvi", [v |-> "252"]), Rec("wvi", [v |-> "253"]), Rec("wvi", [v |-> "65535"]), Rec("wvi", [v |-> "65536"]),
            Rec("wvi", [v |-> "4294967295"]), Rec("wvi", [v |-> "4294967296"]), Rec("wvi", [v |-> "18446744073709551615"]),
            Rec("wb", [b |-> "fdfeff"]), Rec("wvb", [b |-> ""]), Rec("wvb", [b |-> "00ff"]), Rec("wvs", [b |-> "6f6b"]) }
Reads == { Rec(op, X) : op \in {"r8", "r16", "r32", "r64", "rvi", "rvb", "rvs"} }
         \cup { Rec("rb", [n |-> n]) : n \in {"0", "1", "3", "-1", "9223372036854775807"} }
Shows == { Rec("rest", X), Rec("bytes", X), Rec("reset", X) }
GMoves(s, n) == IF n = MaxLen THEN {Rec("rest", X)} ELSE Writes \cup Reads \cup (IF n > 1 THEN Shows ELSE {})
GInits == { [d |-> ""], [d |-> "fd01"], [d |-> "ff00000000000000"], [d |-> "03aabb"], [d |-> "feffffffffaa"] }

\* the position stays inside, a refused read changes nothing
Inside == st.at >= 0 /\ st.at <= Len(st.d)
\* what was written is read back, whatever was written around it
ReadOf(op) == CASE op = "w8" -> "r8" [] op = "w16" -> "r16" [] op = "w32" -> "r32" [] op = "w64" -> "r64"
                [] op = "wvi" -> "rvi" [] op = "wvb" -> "rvb" [] op = "wvs" -> "rvs"
Val(a) == IF "v" \in DOMAIN a THEN a.v ELSE a.b
Run1(acc, m) == LET s == CStep(acc.st, [op |-> m.op, a |-> m.a, r |-> [none |-> 0]]) IN [st |-> s.st, rs |-> Append(acc.rs, s.exp)]
Exec(ms) == FoldLeft(Run1, [st |-> CInit([d |-> ""]), rs |-> << >>], ms).rs
Framed == Writes \ {Rec("wb", [b |-> "fdfeff"])}
ASSUME \A x, y, z \in Framed :
  LET rs == Exec(<<x, y, Rec(ReadOf(x.op), X), z, Rec(ReadOf(y.op), X), Rec(ReadOf(z.op), X), Rec("r8", X)>>) IN
  /\ rs[3].ok /\ rs[3].v = Val(x.a) /\ rs[5].ok /\ rs[5].v = Val(y.a) /\ rs[6].ok /\ rs[6].v = Val(z.a)
  /\ ~rs[7].ok /\ rs[7].seek = rs[6].seek

\* ---- codecs
Seqs(S, n) == UNION { { s \o << >> : s \in [1..k -> S] } : k \in 0..n }
ASSUME \A b \in Seqs({0, 1, 57, 58, 255}, IF Deep THEN 5 ELSE 4) : LET t == B58Encode(b) IN B58Valid(t) /\ B58Decode(t) = b
ASSUME \A b \in Seqs({0, 7, 255}, 3), v \in {0, 5, 111} :
         LET t == B58CheckEncode(b, v) IN
         /\ B58CheckDecode(t) = [ok |-> TRUE, ver |-> v, b |-> b]
         /\ \A k \in 1..Len(t), c \in (IF Deep THEN {B58Chars[i] : i \in 1..58} ELSE {49, 50, 122, 65}) : c # t[k] => ~B58CheckDecode([t EXCEPT ![k] = c]).ok
Hrps == { StrToBytes("a"), StrToBytes("bc"), StrToBytes("t1b"), StrToBytes("?"), StrToBytes("a@b"), StrToBytes("_"), StrToBytes("`z"), StrToBytes("[") }
ASSUME \A h \in Hrps, d \in Seqs({0, 1, 31}, 3) :
         LET t == B32Encode(h, d).s
             r == B32Decode(t)
         IN Len(t) >= 8 =>
            /\ r = [ok |-> TRUE, h |-> h, d |-> d]
            /\ \A k \in (Len(h) + 2)..Len(t), c \in 1..32 : B32Chars[c] # t[k] => ~B32Decode([t EXCEPT ![k] = B32Chars[c]]).ok
            /\ (Deep => \A k, j \in (Len(h) + 2)..Len(t), c \in {1, 17, 32}, e \in {2, 20} : k < j /\ B32Chars[c] # t[k] /\ B32Chars[e] # t[j] => ~B32Decode([t EXCEPT ![k] = B32Chars[c], ![j] = B32Chars[e]]).ok)
ASSUME \A b \in Seqs({0, 1, 128, 255}, 5) : LET r == To8(To5(b)) IN r.ok /\ r.b = b
ASSUME \A n \in 0..41, v \in 0..17 : LET r == SegwitEncode(StrToBytes("bc"), v, Rep(171, n)) IN
         r.ok => SegwitDecode(r.s) = [ok |-> TRUE, h |-> StrToBytes("bc"), ver |-> v, p |-> Rep(171, n)]
ASSUME \A v \in {"0", "252", "253", "65535", "65536", "4294967295", "4294967296", "18446744073709551615"} :
         LET b == VarIntBig(BigDec(v)) IN RdVarInt(b, 0) = [ok |-> TRUE, v |-> BigDec(v), at |-> Len(b)]
         /\ \A k \in 1..Len(b) : ~RdVarInt(SubSeq(b, 1, k - 1), 0).ok
\* published vectors
ASSUME Hx(Pbkdf2("sha1", StrToBytes("password"), StrToBytes("salt"), 2, 20)) = "ea6c014dc72d6f8ccd1ed92ace1d41f0d8de8957"
ASSUME Hx(Ripemd160(StrToBytes("message digest"))) = "5d0689ef49d2fae572b881b123a85ffa21595f36"
ASSUME SegwitDecode(StrToBytes("BC1QW508D6QEJXTDG4Y5R3ZARVARY0C5XW7KV8F3T4")).ok
ASSUME ~SegwitDecode(StrToBytes("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t5")).ok
ASSUME BytesToStr(B58CheckEncode(Un("f6889b21b5540353a29ed18c45ea0031280c42cf"), 0)) = "1PUYsjwfNmX64wS368ZR5FMouTtUmvtmTY"
=============================================================================
