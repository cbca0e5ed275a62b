------------------------------- MODULE Bip39 -------------------------------
(* BIP39.  Words are UTF-8 texts, held as hex.                                *)
EXTENDS Codec, StepLib, Json
WordFile == JsonDeserialize("words.json")
Langs == {"english", "chinese", "japanese"}
WordsOf == [l \in Langs |-> WordFile[l].list]
IndexOf == [l \in Langs |-> LET x == WordFile[l].index IN [w \in DOMAIN x |-> x[w]]]
ASSUME \A l \in Langs : Len(WordsOf[l]) = 2048 /\ \A k \in 1..2048 : IndexOf[l][WordsOf[l][k]] = k - 1
\* the lists published with BIP39, one word a line
ListHash(l) == Hx(Sha256(FlatCat([k \in 1..2048 |-> Un(WordsOf[l][k]) \o <<10>>] \o << >>)))
ASSUME ListHash("english") = "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"
ASSUME ListHash("chinese") = "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726"
ASSUME ListHash("japanese") = "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd"
\* "rev-english": the English words the other way round, as a list of one's own
Word(l, k) == IF l = "rev-english" THEN WordsOf["english"][2048 - k] ELSE WordsOf[l][k + 1]     \* k from 0
Known(l, w) == w \in DOMAIN IndexOf[IF l = "rev-english" THEN "english" ELSE l]
Index(l, w) == IF l = "rev-english" THEN 2047 - IndexOf["english"][w] ELSE IndexOf[l][w]

\* white space: how many bytes of it start at b[k]
Ws(b, k) ==
  IF b[k] \in {9, 10, 11, 12, 13, 32} THEN 1
  ELSE IF k + 1 <= Len(b) /\ b[k] = 194 /\ b[k + 1] \in {133, 160} THEN 2
  ELSE IF k + 2 <= Len(b) /\ \/ b[k] = 225 /\ b[k + 1] = 154 /\ b[k + 2] = 128
                             \/ b[k] = 226 /\ b[k + 1] = 128 /\ b[k + 2] \in ((128..138) \cup {168, 169, 175})
                             \/ b[k] = 226 /\ b[k + 1] = 129 /\ b[k + 2] = 159
                             \/ b[k] = 227 /\ b[k + 1] = 128 /\ b[k + 2] = 128 THEN 3
  ELSE 0
Fields(b) ==
  LET f == FoldLeft(LAMBDA acc, k :
                      IF acc.skip > 0 THEN [acc EXCEPT !.skip = @ - 1]
                      ELSE LET n == Ws(b, k) IN
                           IF n = 0 THEN [acc EXCEPT !.cur = Append(@, b[k])]
                           ELSE [skip |-> n - 1, cur |-> << >>, out |-> IF acc.cur = << >> THEN acc.out ELSE Append(acc.out, Hx(acc.cur))],
                    [skip |-> 0, cur |-> << >>, out |-> << >>], [k \in 1..Len(b) |-> k] \o << >>)
  IN IF f.cur = << >> THEN f.out ELSE Append(f.out, Hx(f.cur))

Sizes == {16, 20, 24, 28, 32}
Counts == {12, 15, 18, 21, 24}
CsBits(n) == n \div 4            \* checksum bits for n bytes
WithSum(ent) == BAdd(BShl(BigOfBytes(ent), CsBits(Len(ent))), Big(Sha256(ent)[1] \div (2 ^ (8 - CsBits(Len(ent))))))
Space == <<32>>
\* the mnemonic's bytes
Mnemonic(l, ent) ==
  LET v == WithSum(ent)
      n == (Len(ent) \div 4) * 3
      w(k) == Un(Word(l, BigToInt(BMod(BShr(v, 11 * (n - k)), Big(2048)))))
  IN FlatCat([k \in 1..n |-> IF k = 1 THEN w(k) ELSE Space \o w(k)] \o << >>)
\* what a mnemonic says: [words: all in the list and the right number, ok: the checksum too, ent, all]
Read(l, text) ==
  LET ws == Fields(text)
      n == Len(ws)
      words == n \in Counts /\ \A k \in 1..n : Known(l, ws[k])
      v == FoldLeft(LAMBDA acc, w : BAdd(BMul(acc, Big(2048)), Big(Index(l, w))), Big(0), ws)
      ent == BigToBytes(BShr(v, n \div 3), (n \div 3) * 4)
  IN IF ~words THEN [words |-> FALSE, ok |-> FALSE]
     ELSE IF WithSum(ent) # v THEN [words |-> TRUE, ok |-> FALSE]
     ELSE [words |-> TRUE, ok |-> TRUE, ent |-> ent, all |-> BigToBytes(v, (n \div 3) * 4 + 1)]
Seed(text, pass) == LET k == "seed" \o Hx(text) \o "/" \o Hx(pass) IN
                    IF MemoHas(k) THEN MemoGet(k) ELSE MemoPut(k, Pbkdf2("sha512", text, StrToBytes("mnemonic") \o pass, 2048, 64))

Has(r, f) == f \in DOMAIN r
MnInit(init) == [l |-> init.list, fresh |-> {}]
No == [ok |-> FALSE]
MnStep(s, e) ==
  LET a == e.a
      l == s.l
      text == Un(a.text)
  IN CASE e.op = "new" -> LET x == Un(a.ent) IN
                          Same(s, e, IF Len(x) \in Sizes THEN [ok |-> TRUE, text |-> Hx(Mnemonic(l, x)), same |-> TRUE] ELSE [ok |-> FALSE, same |-> TRUE])
       [] e.op = "ent" -> LET r == Read(l, text) IN Same(s, e, IF r.ok THEN [ok |-> TRUE, ent |-> Hx(r.ent)] ELSE No)
       [] e.op = "bytes" -> LET r == Read(l, text) IN Same(s, e, IF r.ok THEN [ok |-> TRUE, b |-> Hx(IF a.raw THEN r.ent ELSE r.all)] ELSE No)
       [] e.op = "valid" -> Same(s, e, [ok |-> Read(l, text).words])
       [] e.op = "seedchk" -> Same(s, e, IF Read(l, text).ok THEN [ok |-> TRUE, seed |-> Hx(Seed(text, Un(a.pass)))] ELSE No)
       [] e.op = "seed" -> Same(s, e, [seed |-> Hx(Seed(text, Un(a.pass)))])
       [] e.op = "list" -> Into([s EXCEPT !.l = a.list], e, [ok |-> TRUE])
       [] e.op = "word" -> Same(s, e, IF Known(l, a.word) THEN [ok |-> TRUE, i |-> Index(l, a.word)] ELSE No)
       [] e.op = "fresh" ->    \* any number at the same time
            IF a.bits % 32 # 0 \/ a.bits < 128 \/ a.bits > 256 THEN Same(s, e, [ok |-> FALSE, ents |-> << >>])
            ELSE LET x == IF Has(e.r, "ents") THEN e.r.ents ELSE << >>
                     set == { x[k] : k \in 1..Len(x) }
                 IN Holds([s EXCEPT !.fresh = @ \cup set],
                          /\ e.r.ok /\ Len(x) = a.n /\ Cardinality(set) = a.n
                          /\ set \cap s.fresh = {} /\ \A t \in set : Len(Un(t)) * 8 = a.bits, "fresh entropy of that size")
       [] e.op = "wallets" ->      \* fresh mnemonics of several languages at the same time; which list is in use then depends on who was last
            LET x == IF Has(e.r, "all") THEN e.r.all ELSE << >>
                rd(k) == Read(x[k].list, Un(x[k].text))
                set == { IF rd(k).ok THEN rd(k).ent ELSE << >> : k \in 1..Len(x) }
            IN Holds([s EXCEPT !.fresh = @ \cup { Hx(t) : t \in set }, !.l = IF Has(e.r, "list") THEN e.r.list ELSE @],
                     /\ Len(x) = Len(a.lists) /\ Cardinality(set) = Len(x) /\ { Hx(t) : t \in set } \cap s.fresh = {}
                     /\ \E k \in 1..Len(x) : e.r.list = a.lists[k]
                     /\ \A k \in 1..Len(x) : /\ x[k].list = a.lists[k]
                                             /\ rd(k).ok /\ Len(rd(k).ent) = 16 /\ Mnemonic(x[k].list, rd(k).ent) = Un(x[k].text)
                                             /\ Un(x[k].seed) = Seed(Un(x[k].text), StrToBytes("TREZOR")), "fresh mnemonics")
=============================================================================
