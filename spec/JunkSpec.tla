------------------------------ MODULE JunkSpec ------------------------------
(* Every decoder of external data, given any bytes at all: it answers with a   *)
(* value or an error, within bounds of time and memory; bytes its format        *)
(* excludes are an error and bytes its format has are a value.                  *)
EXTENDS Integers, Sequences, Prims, StepLib
LOCAL TxSigHash0(env, t) == [ok |-> FALSE, h |-> << >>]
LOCAL TxSigValid0(env, h, sig, key) == FALSE
T == INSTANCE Tx WITH SigHash <- TxSigHash0, SigValid <- TxSigValid0
P == INSTANCE Msg
A == INSTANCE Address
C == INSTANCE Codec
H == INSTANCE Hd
W == INSTANCE Bip39
HexOf(s) == HexToBytes(s)

Says(ok) == IF ok THEN "value" ELSE "error"
\* bytes that nothing serialises to although they can be read may be either
Read(ok, exact) == IF ~ok THEN "error" ELSE IF exact THEN "value" ELSE "any"
Verdict(dec, arg, b) ==
  CASE dec = "tx" -> LET r == T!ParseFull(b) IN Read(r.ok, T!SerFull(r.tx) = b)
    [] dec = "txs" -> LET r == T!ParseStrip(b) IN Read(r.ok, T!SerStrip(r.tx) = b)
    [] dec = "script" -> Says(T!Parses(b))
    [] dec = "lock" -> Says(T!Classify(b).t \notin {"err", "unknown"})
    [] dec = "num" -> Says(T!NumOk(b, 4))
    [] dec = "msg" -> LET d == P!Decode(P!TypeOf(arg), b) IN Read(d.ok, P!Encode(d.m) = b)
    [] dec = "addr" -> Says(A!AddrDecode(b, IF arg = "main" THEN A!MainNet ELSE A!TestNet).ok)
    [] dec = "b58" -> Says(C!B58Valid(b))
    [] dec = "b58c" -> Says(C!B58CheckDecode(b).ok)
    [] dec = "b32" -> Says(C!B32Decode(b).ok)
    [] dec = "segwit" -> Says(C!SegwitDecode(b).ok)
    [] dec = "id" -> Says(C!IdDecode(b).ok)
    [] dec = "pub" -> Says(T!DecPub(b).ok)
    [] dec = "der" -> Says(T!DerParse(b).ok)
    [] dec = "sch" -> IF Len(b) # 64 THEN "error" ELSE "any"
    [] dec = "hd" -> LET r == H!FromText(b) IN IF ~r.ok THEN "error" ELSE IF r.sure THEN "value" ELSE "any"
    [] dec = "path" -> LET s == SplitStr(BytesToStr(b), "/") IN
                       Says(b = << >> \/ (s[1] = "m" /\ Len(s) <= 256 /\ \A k \in 2..Len(s) : H!PathStep(StrToBytes(s[k])).ok))
    [] dec = "mnem" -> Says(W!Read(arg, b).ok)
    [] dec = "valid" -> Says(W!Read(arg, b).words)
    [] OTHER -> "any"      \* run, conn, buf, prv, load, merkle, rpc, share: their own specifications say what they make of it

\* kilobytes: what a call may allocate in all, beside a multiple of its input.  Public-key operations and seeds have a cost of
\* their own; a script may make its stack the square of its size (they are limited to 10000 bytes)
Base(dec) == CASE dec \in {"run", "redeem"} -> 256000 [] dec \in {"der", "sch", "prv", "share", "hd", "pub", "coin", "path", "mnem", "rpc"} -> 32000 [] OTHER -> 4000
Times(dec) == CASE dec \in {"path", "prv"} -> 200000 [] OTHER -> 2000
Frugal(dec, n, kb) == kb <= Base(dec) + (Times(dec) * (n + 1023)) \div 1024

JInit(init) == [x |-> 0]
JStep(s, e) ==
  LET a == e.a IN
  CASE e.op = "feed" -> LET b == HexOf(a.b)
                            v == Verdict(a.dec, a.arg, b)
                        IN [st |-> s, exp |-> [out |-> v, kb |-> Base(a.dec)],
                            ok |-> "kb" \in DOMAIN e.r /\ e.r.out \in (IF v = "any" THEN {"value", "error"} ELSE {v}) /\ Frugal(a.dec, Len(b), e.r.kb)]
    \* long inputs: only the bounds
    [] e.op = "flood" -> [st |-> s, exp |-> [out |-> "any", kb |-> Base(a.dec)],
                          ok |-> "kb" \in DOMAIN e.r /\ e.r.out \in {"value", "error"} /\ Frugal(a.dec, e.r.n, e.r.kb)]
=============================================================================
