------------------------------- MODULE Script -------------------------------
(* Scripts as instruction sequences: parsing, building, names, script        *)
(* numbers and the standard templates.                                       *)
EXTENDS Bytes

OP0 == 0            OPPUSHDATA1 == 76   OPPUSHDATA2 == 77   OPPUSHDATA4 == 78
OP1NEGATE == 79     OP1 == 81           OP16 == 96
OPIF == 99          OPNOTIF == 100      OPELSE == 103       OPENDIF == 104
OPRETURN == 106     OP2DUP == 110       OP3DUP == 111       OPDROP == 117
OPDUP == 118        OPSWAP == 124       OPSIZE == 130       OPEQUAL == 135
OPEQUALVERIFY == 136 OPADD == 147       OPHASH160 == 169
OPCHECKSIG == 172   OPCHECKSIGVERIFY == 173
OPCHECKMULTISIG == 174 OPCHECKMULTISIGVERIFY == 175

Conditionals == {OPIF, OPNOTIF, OPELSE, OPENDIF}
Supported == (0..79) \cup (81..96) \cup
  {OPIF, OPNOTIF, OPELSE, OPENDIF, OPRETURN, OP2DUP, OP3DUP, OPDROP, OPDUP, OPSWAP,
   OPSIZE, OPEQUAL, OPEQUALVERIFY, OPADD, OPHASH160, OPCHECKSIG, OPCHECKSIGVERIFY,
   OPCHECKMULTISIG, OPCHECKMULTISIGVERIFY}

OpName(op) ==
  CASE op = 0 -> "OP_0"
    [] op \in 1..75 -> StrCat("OP_DATA_", IntToStr(op))
    [] op = 76 -> "OP_PUSHDATA1" [] op = 77 -> "OP_PUSHDATA2" [] op = 78 -> "OP_PUSHDATA4"
    [] op = 79 -> "OP_1NEGATE"
    [] op \in 81..96 -> StrCat("OP_", IntToStr(op - 80))
    [] op = OPIF -> "OP_IF" [] op = OPNOTIF -> "OP_NOTIF" [] op = OPELSE -> "OP_ELSE" [] op = OPENDIF -> "OP_ENDIF"
    [] op = OPRETURN -> "OP_RETURN" [] op = OP2DUP -> "OP_2DUP" [] op = OP3DUP -> "OP_3DUP"
    [] op = OPDROP -> "OP_DROP" [] op = OPDUP -> "OP_DUP" [] op = OPSWAP -> "OP_SWAP"
    [] op = OPSIZE -> "OP_SIZE" [] op = OPEQUAL -> "OP_EQUAL" [] op = OPEQUALVERIFY -> "OP_EQUALVERIFY"
    [] op = OPADD -> "OP_ADD" [] op = OPHASH160 -> "OP_HASH160"
    [] op = OPCHECKSIG -> "OP_CHECKSIG" [] op = OPCHECKSIGVERIFY -> "OP_CHECKSIGVERIFY"
    [] op = OPCHECKMULTISIG -> "OP_CHECKMULTISIG" [] op = OPCHECKMULTISIGVERIFY -> "OP_CHECKMULTISIGVERIFY"
    [] OTHER -> "?"

(* ---- parsing ---------------------------------------------------------- *)
PushLen(p, at, k) == LET r == RdLE(p, at, k) IN
                     IF ~r.ok THEN RdFail ELSE RdBytes(p, r.at, FitLen(p, r.at, r.v))
\* The instruction at offset `at`: [k |-> "end"], [k |-> "err"] or
\* [k |-> "ok", op, data, next].
ReadInstr(p, at) ==
  IF at >= Len(p) THEN [k |-> "end"]
  ELSE LET op == p[at + 1] IN
       IF op \notin Supported THEN [k |-> "err"]
       ELSE IF op \in 1..78
            THEN LET r == CASE op = 76 -> PushLen(p, at + 1, 1)
                            [] op = 77 -> PushLen(p, at + 1, 2)
                            [] op = 78 -> PushLen(p, at + 1, 4)
                            [] OTHER   -> RdBytes(p, at + 1, op)
                 IN IF r.ok THEN [k |-> "ok", op |-> op, data |-> r.v, next |-> r.at] ELSE [k |-> "err"]
            ELSE [k |-> "ok", op |-> op, data |-> << >>, next |-> at + 1]

RECURSIVE ParseFrom(_, _, _)
ParseFrom(p, at, acc) ==
  LET i == ReadInstr(p, at) IN
  CASE i.k = "end" -> [ok |-> TRUE, ins |-> acc]
    [] i.k = "err" -> [ok |-> FALSE, ins |-> acc]
    [] OTHER -> ParseFrom(p, i.next, Append(acc, [op |-> i.op, data |-> i.data]))
Parse(p) == ParseFrom(p, 0, << >>)
Parses(p) == Parse(p).ok

DisasmInstr(i) == IF i.data = << >> THEN << OpName(i.op) >> ELSE << OpName(i.op), Hx(i.data) >>
Disasm(p) == JoinStr(FoldLeft(LAMBDA acc, i : acc \o DisasmInstr(i), << >>, Parse(p).ins), " ")

\* the bytes of one instruction, exactly as parsed
InstrBytes(i) == CASE i.op = 76 -> <<76, Len(i.data)>> \o i.data
                   [] i.op = 77 -> <<77>> \o LE16(Len(i.data)) \o i.data
                   [] i.op = 78 -> <<78>> \o LE32(Len(i.data)) \o i.data
                   [] OTHER -> <<i.op>> \o i.data
RemoveOp(p, op) ==
  LET q == Parse(p) IN
  IF ~q.ok THEN p
  ELSE FoldLeft(LAMBDA acc, i : IF i.op = op THEN acc ELSE acc \o InstrBytes(i), << >>, q.ins)

(* ---- script numbers (little endian, sign bit, minimal) ------------------ *)
NumEncode(a) ==
  IF a = Big(0) THEN << >>
  ELSE LET neg == BLt(a, Big(0))
           m == Reverse(BigToMinBytes(a))
           top == Last(m)
       IN IF top >= 128 THEN Append(m, IF neg THEN 128 ELSE 0)
          ELSE IF neg THEN [m EXCEPT ![Len(m)] = top + 128] ELSE m
NumMinimal(b) == \/ b = << >>
                 \/ Last(b) % 128 # 0
                 \/ Len(b) > 1 /\ b[Len(b) - 1] >= 128
NumDecode(b) ==     \* meaningful for minimal b
  IF b = << >> THEN Big(0)
  ELSE LET top == Last(b)
           m == BigOfLE([b EXCEPT ![Len(b)] = top % 128])
       IN IF top >= 128 THEN BSub(Big(0), m) ELSE m
NumOk(b, max) == Len(b) <= max /\ NumMinimal(b)
AsBool(b) == \E k \in 1..Len(b) : b[k] # 0 /\ ~(k = Len(b) /\ b[k] = 128)

(* ---- building ----------------------------------------------------------- *)
\* Canonical push.  A single zero byte is pushed as OP_0 (the library's own
\* convention, pinned by its tests).
PushData(d) ==
  LET l == Len(d) IN
  CASE l = 0 -> <<OP0>>
    [] l = 1 /\ d[1] = 0 -> <<OP0>>
    [] l = 1 /\ d[1] \in 1..16 -> <<80 + d[1]>>
    [] l = 1 /\ d[1] = 129 -> <<OP1NEGATE>>
    [] l <= 75 -> <<l>> \o d
    [] l <= 255 -> <<76, l>> \o d
    [] l <= 65535 -> <<77>> \o LE16(l) \o d
    [] OTHER -> <<78>> \o LE32(l) \o d
PushInt(a) ==
  IF a = Big(0) THEN <<OP0>>
  ELSE IF a = Big(-1) THEN <<OP1NEGATE>>
  ELSE IF BLeq(Big(1), a) /\ BLeq(a, Big(16)) THEN <<80 + BigToInt(a)>>
  ELSE PushData(NumEncode(a))
\* what a parsed push puts on the stack
PushedValue(i) == CASE i.op = 0 -> << >>
                    [] i.op = OP1NEGATE -> <<129>>
                    [] i.op \in 81..96 -> <<i.op - 80>>
                    [] OTHER -> i.data

(* ---- templates ---------------------------------------------------------- *)
P2PKH(h) == <<OPDUP, OPHASH160>> \o PushData(h) \o <<OPEQUALVERIFY, OPCHECKSIG>>
P2SH(h) == <<OPHASH160>> \o PushData(h) \o <<OPEQUAL>>
P2WPKH(h) == <<OP0>> \o PushData(h)
P2WSH(h) == <<OP0>> \o PushData(h)
MultiSig(m, keys) == PushInt(Big(m)) \o FlatCat([k \in 1..Len(keys) |-> PushData(keys[k])] \o << >>)
                     \o PushInt(Big(Len(keys))) \o <<OPCHECKMULTISIG>>
OpsAre(ins, ops) == Len(ins) = Len(ops) /\ \A k \in 1..Len(ops) : ins[k].op = ops[k]
\* type of a locking script: [t, hash]
Classify(p) ==
  LET q == Parse(p) IN
  IF ~q.ok THEN [t |-> "err", hash |-> << >>]
  ELSE CASE OpsAre(q.ins, <<OPDUP, OPHASH160, 20, OPEQUALVERIFY, OPCHECKSIG>>) -> [t |-> "p2pkh", hash |-> q.ins[3].data]
         [] OpsAre(q.ins, <<OPHASH160, 20, OPEQUAL>>) -> [t |-> "p2sh", hash |-> q.ins[2].data]
         [] OpsAre(q.ins, <<OP0, 20>>) -> [t |-> "p2wpkh", hash |-> q.ins[2].data]
         [] OpsAre(q.ins, <<OP0, 32>>) -> [t |-> "p2wsh", hash |-> q.ins[2].data]
         [] OTHER -> [t |-> "unknown", hash |-> << >>]
IsP2SH(p) == Classify(p).t = "p2sh"
=============================================================================
