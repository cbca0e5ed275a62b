------------------------------- MODULE Codec -------------------------------
(* Text codecs and digests: base58, base58check, bech32 (BIP173), segwit     *)
(* programs, hash ids, PBKDF2.  Text is a byte string.                       *)
EXTENDS Bytes

ANY == [any |-> TRUE]
(* ---- base58 -------------------------------------------------------------- *)
B58Chars == StrToBytes("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
B58Index == [c \in {B58Chars[k] : k \in 1..58} |-> (CHOOSE k \in 1..58 : B58Chars[k] = c) - 1]
RECURSIVE LeadCount(_, _, _)
LeadCount(b, x, k) == IF k < Len(b) /\ b[k + 1] = x THEN LeadCount(b, x, k + 1) ELSE k
B58Width(n) == (n * 138) \div 100 + 1          \* no more digits than this for n bytes
\* digits of a big integer in base 58, most significant first, no leading zero
B58Digits(a, n) ==
  LET f == FoldLeft(LAMBDA acc, k : IF acc.v = Big(0) THEN acc
                                    ELSE [v |-> BDiv(acc.v, Big(58)), d |-> <<BigToInt(BMod(acc.v, Big(58)))>> \o acc.d],
                    [v |-> a, d |-> << >>], [k \in 1..B58Width(n) |-> k] \o << >>)
  IN f.d
B58Encode(b) == LET z == LeadCount(b, 0, 0)
                    d == B58Digits(BigOfBytes(b), Len(b))
                IN Rep(49, z) \o ([k \in 1..Len(d) |-> B58Chars[d[k] + 1]] \o << >>)
B58Valid(t) == \A k \in 1..Len(t) : t[k] \in DOMAIN B58Index
B58Decode(t) ==                                 \* for valid t
  LET z == LeadCount(t, 49, 0)
      v == FoldLeft(LAMBDA acc, c : BAdd(BMul(acc, Big(58)), Big(B58Index[c])), Big(0), t)
  IN Rep(0, z) \o BigToMinBytes(v)
Check4(b) == SubSeq(Hash256(b), 1, 4)
B58CheckEncode(b, ver) == LET x == <<ver>> \o b IN B58Encode(x \o Check4(x))
\* [ok, ver, b]
B58CheckDecode(t) ==
  IF ~B58Valid(t) THEN [ok |-> FALSE]
  ELSE LET x == B58Decode(t)
           n == Len(x)
           body == SubSeq(x, 1, n - 4)
       IN IF n < 5 \/ Check4(body) # Drop(x, n - 4) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, ver |-> x[1], b |-> Tail(body)]

(* ---- bech32 -------------------------------------------------------------- *)
B32Chars == StrToBytes("qpzry9x8gf2tvdw0s3jn54khce6mua7l")
B32Index == [c \in {B32Chars[k] : k \in 1..32} |-> (CHOOSE k \in 1..32 : B32Chars[k] = c) - 1]
B32Gen == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
Polymod(values) ==
  FoldLeft(LAMBDA chk, v :
             LET top == chk \div 33554432
                 x == IXor((chk % 33554432) * 32, v)
             IN FoldLeft(LAMBDA y, i : IF (top \div (2 ^ (i - 1))) % 2 = 1 THEN IXor(y, B32Gen[i]) ELSE y, x, <<1, 2, 3, 4, 5>>),
           1, values)
HrpExpand(h) == ([k \in 1..Len(h) |-> h[k] \div 32] \o <<0>>) \o ([k \in 1..Len(h) |-> h[k] % 32] \o << >>)
B32Check(h, data) == LET p == IXor(Polymod(HrpExpand(h) \o data \o Rep(0, 6)), 1)
                     IN [k \in 1..6 |-> (p \div (32 ^ (6 - k))) % 32] \o << >>
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
Lower(t) == [k \in 1..Len(t) |-> IF IsUpper(t[k]) THEN t[k] + 32 ELSE t[k]] \o << >>
HrpOk(h) == Len(h) >= 1 /\ \A k \in 1..Len(h) : h[k] \in 33..126 /\ ~IsUpper(h[k])
\* [ok, s]; what cannot be decoded again is not produced
B32Encode(h, data) ==
  IF ~HrpOk(h) \/ Len(h) + Len(data) + 7 > 90 \/ \E k \in 1..Len(data) : data[k] > 31 THEN [ok |-> FALSE]
  ELSE LET d == data \o B32Check(h, data)
       IN [ok |-> TRUE, s |-> (h \o <<49>>) \o ([k \in 1..Len(d) |-> B32Chars[d[k] + 1]] \o << >>)]
\* [ok, h, d]
B32Decode(t) ==
  LET bad == [ok |-> FALSE]
      l == Lower(t)
      ones == {k \in 1..Len(t) : t[k] = 49}
      one == CHOOSE k \in ones : \A j \in ones : j <= k
  IN IF \/ Len(t) < 8 \/ Len(t) > 90
        \/ \E k \in 1..Len(t) : t[k] \notin 33..126
        \/ (\E k \in 1..Len(t) : IsUpper(t[k])) /\ (\E k \in 1..Len(t) : IsLower(t[k]))
        \/ ones = {} \/ one = 1 \/ one + 6 > Len(t) THEN bad
     ELSE LET h == SubSeq(l, 1, one - 1)
              x == Drop(l, one)
          IN IF \E k \in 1..Len(x) : x[k] \notin DOMAIN B32Index THEN bad
             ELSE LET d == [k \in 1..Len(x) |-> B32Index[x[k]]] \o << >>
                  IN IF Polymod(HrpExpand(h) \o d) # 1 THEN bad
                     ELSE [ok |-> TRUE, h |-> h, d |-> SubSeq(d, 1, Len(d) - 6)]

Bits(b, w) == FlatCat([k \in 1..Len(b) |-> [j \in 1..w |-> (b[k] \div (2 ^ (w - j))) % 2] \o << >>] \o << >>)
Group(bits, w) == [k \in 1..(Len(bits) \div w) |-> FoldLeft(LAMBDA a, x : 2 * a + x, 0, SubSeq(bits, (k - 1) * w + 1, k * w))] \o << >>
To5(b) == LET x == Bits(b, 8) IN Group(x \o Rep(0, (5 - (Len(x) % 5)) % 5), 5)
\* [ok, b]: the padding is shorter than a group and zero
To8(d) == LET x == Bits(d, 5)
              n == Len(x) - (Len(x) % 8)
              pad == Drop(x, n)
          IN [ok |-> Len(pad) < 5 /\ \A k \in 1..Len(pad) : pad[k] = 0, b |-> Group(SubSeq(x, 1, n), 8)]
ProgOk(ver, prog) == /\ ver \in 0..16 /\ Len(prog) \in 2..40
                     /\ ver = 0 => Len(prog) \in {20, 32}
SegwitEncode(h, ver, prog) == IF ProgOk(ver, prog) THEN B32Encode(h, <<ver>> \o To5(prog)) ELSE [ok |-> FALSE]
\* [ok, h, ver, p]
SegwitDecode(t) ==
  LET r == B32Decode(t) IN
  IF ~r.ok \/ (r.ok /\ r.d = << >>) THEN [ok |-> FALSE]
  ELSE LET p == To8(Tail(r.d)) IN
       IF ~p.ok \/ ~ProgOk(r.d[1], p.b) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, h |-> r.h, ver |-> r.d[1], p |-> p.b]

(* ---- hexadecimal ids ------------------------------------------------------ *)
HexDigit == (48..57) \cup (65..70) \cup (97..102)
IsHexText(t) == Len(t) % 2 = 0 /\ \A k \in 1..Len(t) : t[k] \in HexDigit
\* an ID is 32 bytes, shown back to front
IdDecode(t) == IF IsHexText(t) /\ Len(t) = 64 THEN [ok |-> TRUE, b |-> Reverse(Un(BytesToStr(t)))] ELSE [ok |-> FALSE]
IdEncode(b) == Hx(Reverse(b))

(* ---- PBKDF2 (RFC 8018) ---------------------------------------------------- *)
HmacOf(alg, k, m) == CASE alg = "sha1" -> HmacSha1(k, m) [] alg = "sha256" -> HmacSha256(k, m) [] OTHER -> HmacSha512(k, m)
HashLen(alg) == CASE alg = "sha1" -> 20 [] alg = "sha256" -> 32 [] OTHER -> 64
PBlock(alg, pw, salt, iter, i) ==
  LET u1 == HmacOf(alg, pw, salt \o Reverse(LE32(i)))
      f == FoldLeft(LAMBDA acc, k : LET u == HmacOf(alg, pw, acc.u) IN [u |-> u, t |-> XorBytes(acc.t, u)],
                    [u |-> u1, t |-> u1], [k \in 1..(iter - 1) |-> k] \o << >>)
  IN f.t
Pbkdf2(alg, pw, salt, iter, n) ==
  SubSeq(FlatCat([i \in 1..((n + HashLen(alg) - 1) \div HashLen(alg)) |-> PBlock(alg, pw, salt, iter, i)] \o << >>), 1, n)
=============================================================================
