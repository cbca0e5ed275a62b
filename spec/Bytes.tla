------------------------------- MODULE Bytes -------------------------------
(* Byte strings: integer layouts, variable-length integers, slices.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Prims

Byte == 0..255
Empty == << >>
Hx(b) == BytesToHex(b)
Un(s) == HexToBytes(s)

\* p[from+1 .. from+n]: n bytes after skipping `from`
Slice(p, from, n) == SubSeq(p, from + 1, from + n)
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Rep(b, n) == [k \in 1..n |-> b] \o << >>


\* little-endian layouts of TLC integers (up to 2^31-1) and of big integers
LE16(n) == << n % 256, (n \div 256) % 256 >>
LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
LEBig(a, k) == Reverse(BigToBytes(a, k))
LEDec(s, k) == LEBig(BigDec(s), k)          \* decimal text, k bytes
BEDec(s, k) == BigToBytes(BigDec(s), k)
BigOfLE(b) == BigOfBytes(Reverse(b))
DecOfLE(b) == BigToDec(BigOfLE(b))

\* Bitcoin variable-length integer
VarInt(n) == IF n < 253 THEN << n >>
             ELSE IF n <= 65535 THEN <<253>> \o LE16(n)
             ELSE <<254>> \o LE32(n)
VarIntBig(a) == IF BLt(a, Big(253)) THEN << BigToInt(a) >>
                ELSE IF BLeq(a, Big(65535)) THEN <<253>> \o LEBig(a, 2)
                ELSE IF BLeq(a, BigDec("4294967295")) THEN <<254>> \o LEBig(a, 4)
                ELSE <<255>> \o LEBig(a, 8)
VarIntSize(n) == IF n < 253 THEN 1 ELSE IF n <= 65535 THEN 3 ELSE 5
VarBytes(b) == VarInt(Len(b)) \o b

\* Reading: a cursor is [p |-> bytes, at |-> offset, ok |-> BOOLEAN]
\* Results are [ok, v, at].
RdFail == [ok |-> FALSE, v |-> << >>, at |-> 0]
RdBytes(p, at, n) == IF n >= 0 /\ n <= Len(p) - at THEN [ok |-> TRUE, v |-> Slice(p, at, n), at |-> at + n] ELSE RdFail
RdLE(p, at, n) == LET r == RdBytes(p, at, n) IN
                  IF r.ok THEN [ok |-> TRUE, v |-> BigOfLE(r.v), at |-> r.at] ELSE RdFail
RdVarInt(p, at) ==
  IF at >= Len(p) THEN RdFail
  ELSE LET f == p[at + 1] IN
       CASE f = 253 -> RdLE(p, at + 1, 2)
         [] f = 254 -> RdLE(p, at + 1, 4)
         [] f = 255 -> RdLE(p, at + 1, 8)
         [] OTHER   -> [ok |-> TRUE, v |-> Big(f), at |-> at + 1]
\* length as a TLC integer, or -1 when larger than what is left
FitLen(p, at, big) == IF BLeq(big, Big(Len(p) - at)) THEN BigToInt(big) ELSE -1
RdVarBytes(p, at) == LET n == RdVarInt(p, at) IN
                     IF ~n.ok THEN RdFail ELSE RdBytes(p, n.at, FitLen(p, n.at, n.v))

Hash160(b) == Ripemd160(Sha256(b))
Hash256(b) == Sha256(Sha256(b))
=============================================================================
