------------------------------- MODULE Prims -------------------------------
(* Primitives bound to Java (java/Prims.java): conversions, big integers     *)
(* and the standard digests.  They are the trusted base of the              *)
(* specification; every definition below is a placeholder that TLC replaces *)
(* by the Java method of the same name.                                     *)
(*                                                                          *)
(* A byte string is a sequence over 0..255.  A big integer is an opaque     *)
(* sequence (sign, limbs) that is only ever touched through the operators   *)
(* here; two equal integers are equal as values.                            *)
LOCAL Undef == CHOOSE x \in {} : TRUE

HexToBytes(s) == Undef          \* "0aff" -> <<10,255>>
BytesToHex(b) == Undef
StrToBytes(s) == Undef          \* UTF-8
BytesToStr(b) == Undef
IntToStr(n)   == Undef
StrCat(a, b)  == Undef
JoinStr(seq, sep) == Undef
SplitStr(s, sep)  == Undef
FlatCat(seqs)  == Undef          \* flatten a sequence of sequences
XorBytes(a, b) == Undef

Big(n)        == Undef          \* from a TLC integer
BigDec(s)     == Undef          \* from decimal text
BigHex(s)     == Undef          \* from hexadecimal text
BigToDec(a)   == Undef
BigOfBytes(b) == Undef          \* big endian, unsigned
BigToMinBytes(a) == Undef       \* big endian, no leading zeros
BigToBytes(a, n) == Undef       \* big endian, exactly n bytes
BigToInt(a)   == Undef
BAdd(a, b) == Undef
BSub(a, b) == Undef
BMul(a, b) == Undef
BDiv(a, b) == Undef             \* truncated towards zero
BMod(a, m) == Undef             \* result in 0..m-1
BModInv(a, m) == Undef
BModPow(a, e, m) == Undef
BGcd(a, b) == Undef
BMulMod(a, b, m) == Undef
BAddMod(a, b, m) == Undef
BSubMod(a, b, m) == Undef
BCmp(a, b) == Undef             \* -1, 0, 1
BLt(a, b)  == Undef
BLeq(a, b) == Undef
BShr(a, n) == Undef
BShl(a, n) == Undef
BBit(a, n) == Undef             \* TRUE iff bit n is set
BBitLen(a) == Undef
BIsProbablePrime(a) == Undef

SecpMul(k, p) == Undef          \* k times a point of secp256k1; checked against Secp256k1.tla's own definition

Sha1(b)    == Undef
Sha256(b)  == Undef
Sha512(b)  == Undef
Ripemd160(b) == Undef
HmacSha1(k, m)   == Undef
HmacSha256(k, m) == Undef
HmacSha512(k, m) == Undef

IXor(a, b) == Undef
IAnd(a, b) == Undef
IShr(a, n) == Undef

EmitLine(s) == Undef            \* side channel: append a line to the run's output file; TRUE

MemoHas(k) == Undef
MemoGet(k) == Undef
MemoPut(k, v) == Undef          \* remembers v under k, returns v
=============================================================================
