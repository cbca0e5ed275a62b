------------------------------ MODULE MC_Bip39 ------------------------------
(* Entropies of every size in every list, their mnemonics and back; and       *)
(* mnemonics that are not quite right.                                        *)
EXTENDS Bip39, GenRun
CONSTANT Deep
Rec(op, a) == [op |-> op, a |-> a]
Lists == Langs \cup {"rev-english"}
GInits == { [list |-> l] : l \in Lists }
H(n) == Sha256(<<n>>) \o Sha256(<<n, n>>)
Take(b, n) == SubSeq(b, 1, n)
Ents(n) == { Rep(0, n), Rep(255, n), Rep(127, n), Rep(128, n), [Rep(0, n) EXCEPT ![n] = 1], [Rep(0, n) EXCEPT ![1] = 1], Take(<<0>> \o H(1), n), Take(<<0, 0, 0, 0>> \o H(2), n), Take(H(3), n - 1) \o <<0>>, Take(H(4), n - 3) \o <<0, 0, 0>>, Take(H(5), n) }
AllEnts(l) == UNION { IF l = "english" \/ Deep THEN Ents(n) ELSE { Rep(0, n), Take(H(5), n) } : n \in Sizes }
BadSizes == {0, 1, 4, 8, 12, 15, 17, 18, 22, 31, 33, 36, 40, 64}
Tx(op, t) == Rec(op, [text |-> Hx(t)])
Bytes(t, raw) == Rec("bytes", [text |-> Hx(t), raw |-> raw])
Seedchk(t, p) == Rec("seedchk", [text |-> Hx(t), pass |-> Hx(p)])
Join(ws, sep) == FlatCat([k \in 1..Len(ws) |-> IF k = 1 THEN Un(ws[k]) ELSE sep \o Un(ws[k])] \o << >>)
Alike(l, ws) ==
  LET n == Len(ws)
      last == IF Known(l, ws[n]) THEN Index(l, ws[n]) ELSE 0
      j(x) == Join(x, Space)
      Flip(i, k) == IF (i \div k) % 2 = 0 THEN i + k ELSE i - k
  IN { j([ws EXCEPT ![n] = Word(l, Flip(last, k))]) : k \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024} }
     \cup (IF Deep THEN { j([ws EXCEPT ![n] = Word(l, (last + k) % 2048)]) : k \in {3, 5, 7, 15, 17, 255, 2047} } ELSE {})
     \cup { j([ws EXCEPT ![k] = Word(l, Flip(Index(l, ws[k]), 1))]) : k \in 2..(n - 1) }
     \cup { j([ws EXCEPT ![1] = Word(l, (Index(l, ws[1]) + k) % 2048)]) : k \in {1, 1024} }
     \cup { j([ws EXCEPT ![k] = ws[k + 1], ![k + 1] = ws[k]]) : k \in {1, n - 1} }
     \cup { j(SubSeq(ws, 1, k)) : k \in {0, 1, 3, 6, 9, n - 1} \cup { c \in Counts : c < n } }
     \cup { j(ws \o SubSeq(ws, 1, k)) : k \in {1, 3, 12} }
     \cup { j([ws EXCEPT ![n] = Hx(StrToBytes("abandonn"))]), j([ws EXCEPT ![1] = Hx(StrToBytes("Abandon"))]), j([ws EXCEPT ![2] = ws[2] \o Hx(<<0>>)]), j([ws EXCEPT ![n] = ws[n] \o Hx(StrToBytes("."))]) }
Spaced(ws) == { Join(ws, sep) : sep \in { <<32, 32>>, <<9>>, <<10>>, <<13, 10>>, <<227, 128, 128>>, <<194, 160>>, <<226, 128, 131>> } }
              \cup { Space \o Join(ws, Space), Join(ws, Space) \o <<10>>, Join(ws, << >>), Join(ws, <<44>>), Join(ws, <<0>>), Join(ws, <<226, 128, 139>>) }
Pass == { << >>, StrToBytes("TREZOR"), <<32>>, Rep(97, 200) }
GMoves(s, n) ==
  IF n = 1 THEN { Rec("new", [ent |-> Hx(x)]) : x \in AllEnts(s.l) \cup { Take(H(9) \o H(8), k) : k \in BadSizes } }
                \cup { Rec("word", [word |-> Word(s.l, k)]) : k \in {0, 1, 1023, 2047} } \cup { Rec("word", [word |-> w]) : w \in {"", Hx(StrToBytes("abandon ")), WordsOf["japanese"][7], WordsOf["chinese"][7], WordsOf["english"][7]} }
  ELSE IF hist[1].op = "word" \/ ~hist[1].r.ok THEN {}
  ELSE LET t == Un(hist[1].r.text)
           ent == Un(hist[1].a.ent)
           plain == Len(ent) >= 16 /\ ent = Take(H(5), Len(ent))
           ws == Fields(t)
       IN IF n = 2 THEN { Tx("ent", t), Bytes(t, TRUE) } \cup
                        (IF plain THEN { Tx("ent", x) : x \in Alike(s.l, ws) \cup Spaced(ws) } \cup { Bytes(x, FALSE) : x \in Alike(s.l, ws) \cup Spaced(ws) }
                                  \cup { Tx("valid", x) : x \in Alike(s.l, ws) }
                                  \cup { Seedchk(x, StrToBytes("p")) : x \in Alike(s.l, ws) }
                                  \cup (IF Len(ent) \in (IF Deep THEN Sizes ELSE {16, 32}) THEN { Seedchk(t, p) : p \in Pass } ELSE {})
                                  \cup { Rec("list", [list |-> x]) : x \in (Lists \ {s.l}) }
                         ELSE {})
          ELSE IF n = 3 THEN (IF hist[2].op = "list" THEN { Tx("ent", t), Bytes(t, FALSE), Tx("valid", t), Rec("new", [ent |-> hist[1].a.ent]) } ELSE { Bytes(Un(hist[2].a.text), FALSE) })
          ELSE {}
\* ---- what must come of it
Lossless == Len(hist) >= 2 /\ hist[2].op = "ent" /\ hist[2].a.text = hist[1].r.text => hist[2].r = [ok |-> TRUE, ent |-> hist[1].a.ent]
\* whatever is accepted says exactly one thing
OneToOne == \A k \in 2..Len(hist) : hist[k].op = "ent" /\ hist[k].r.ok => Fields(Mnemonic(ini.list, Un(hist[k].r.ent))) = Fields(Un(hist[k].a.text))
\* the reference vectors
E(x) == BytesToStr(Mnemonic("english", Un(x)))
ASSUME E("00000000000000000000000000000000") = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
ASSUME E("7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f") = "legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal will"
ASSUME E("f585c11aec520db57dd353c69554b21a89b20fb0650966fa0a9d6f74fd989d8f") = "void come effort suffer camp survey warrior heavy shoot primary clutch crush open amazing screen patrol group space point ten exist slush involve unfold"
ASSUME Hx(Seed(StrToBytes("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"), StrToBytes("TREZOR"))) = "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"
=============================================================================
