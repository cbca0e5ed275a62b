------------------------------ MODULE AliasSpec -----------------------------
(* The caller's memory: values it owns (slices with room behind their end,     *)
(* keys, numbers, transactions, builders...) and values calls returned, each    *)
(* known by a digest of all of it the caller can see.  A call leaves every one  *)
(* of them as it was, but for the object it is there to change; it returns new  *)
(* ones; and the same call with the same arguments returns the same.            *)
EXTENDS Integers, Sequences, TLC, Prims, StepLib
\* every operation: what it takes and what it returns, by kind
Sig == (
  "b58.enc" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "b58.dec" :> [in |-> <<"t">>, out |-> <<"b">>] @@
  "b58c.enc" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "b58c.dec" :> [in |-> <<"t">>, out |-> <<"b">>] @@
  "b32.enc" :> [in |-> <<"q">>, out |-> <<"t">>] @@
  "b32.dec" :> [in |-> <<"t">>, out |-> <<"q">>] @@
  "wit.enc" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "wit.dec" :> [in |-> <<"t">>, out |-> <<"b">>] @@
  "id.str" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "id.from" :> [in |-> <<"t">>, out |-> <<"b">>] @@
  "hash" :> [in |-> <<"b">>, out |-> <<"b", "b", "b", "b">>] @@
  "big" :> [in |-> <<"b">>, out |-> <<"n">>] @@
  "buf.new" :> [in |-> << >>, out |-> <<"w">>] @@
  "buf.ints" :> [in |-> <<"w">>, out |-> << >>] @@
  "buf.bytes" :> [in |-> <<"w", "b">>, out |-> << >>] @@
  "buf.vb" :> [in |-> <<"w", "b">>, out |-> << >>] @@
  "buf.vs" :> [in |-> <<"w", "t">>, out |-> << >>] @@
  "buf.get" :> [in |-> <<"w">>, out |-> <<"b">>] @@
  "buf.reset" :> [in |-> <<"w">>, out |-> << >>] @@
  "buf.read" :> [in |-> <<"b">>, out |-> <<"t", "b", "b", "b">>] @@
  "buf.readn" :> [in |-> <<"b">>, out |-> <<"b", "b", "b">>] @@
  "mk.new" :> [in |-> <<"L">>, out |-> <<"m">>] @@
  "mk.root" :> [in |-> <<"m">>, out |-> <<"b">>] @@
  "mk.prove" :> [in |-> <<"m", "L">>, out |-> <<"d", "b">>] @@
  "mk.verify" :> [in |-> <<"m", "b", "b", "d">>, out |-> <<"t">>] @@
  "prv" :> [in |-> <<"b">>, out |-> <<"k">>] @@
  "prv.ser" :> [in |-> <<"k">>, out |-> <<"b">>] @@
  "prv.pub" :> [in |-> <<"k">>, out |-> <<"p">>] @@
  "prv.add" :> [in |-> <<"k", "b">>, out |-> <<"k">>] @@
  "pub" :> [in |-> <<"b">>, out |-> <<"p">>] @@
  "pub.add" :> [in |-> <<"p", "p">>, out |-> <<"p">>] @@
  "pub.ser" :> [in |-> <<"p">>, out |-> <<"b", "b", "b", "b", "b">>] @@
  "pub.xy" :> [in |-> <<"p">>, out |-> <<"b", "b">>] @@
  "ecdsa.sign" :> [in |-> <<"k", "h">>, out |-> <<"b">>] @@
  "ecdsa.verify" :> [in |-> <<"p", "h", "b">>, out |-> <<"t">>] @@
  "sch.sign" :> [in |-> <<"k", "h">>, out |-> <<"b">>] @@
  "sch.verify" :> [in |-> <<"p", "h", "b">>, out |-> <<"t">>] @@
  "der" :> [in |-> <<"b">>, out |-> <<"b">>] @@
  "sch.round" :> [in |-> <<"b">>, out |-> <<"b">>] @@
  "pt" :> [in |-> <<"n">>, out |-> <<"s">>] @@
  "pt.add" :> [in |-> <<"s", "s">>, out |-> <<"s">>] @@
  "pt.addc" :> [in |-> <<"s", "s">>, out |-> <<"n", "n">>] @@
  "pt.double" :> [in |-> <<"s">>, out |-> <<"n", "n">>] @@
  "pt.mult" :> [in |-> <<"s", "b">>, out |-> <<"n", "n">>] @@
  "pt.on" :> [in |-> <<"s">>, out |-> <<"t">>] @@
  "pt.ser" :> [in |-> <<"s">>, out |-> <<"b">>] @@
  "pt.deser" :> [in |-> <<"b">>, out |-> <<"n", "n">>] @@
  "raw.sch" :> [in |-> <<"n", "h">>, out |-> <<"n", "n", "t">>] @@
  "raw.ecdsa" :> [in |-> <<"n", "h">>, out |-> <<"n", "n", "t">>] @@
  "raw.parts" :> [in |-> <<"n", "h", "s">>, out |-> <<"n", "n", "n">>] @@
  "raw.nonce" :> [in |-> <<"n", "h">>, out |-> <<"n", "n">>] @@
  "pl.enc" :> [in |-> <<"P", "n">>, out |-> <<"c">>] @@
  "pl.dec" :> [in |-> <<"S", "c">>, out |-> <<"n">>] @@
  "pl.add" :> [in |-> <<"P", "c", "c">>, out |-> <<"c">>] @@
  "pl.sub" :> [in |-> <<"P", "c", "c">>, out |-> <<"c">>] @@
  "pl.addp" :> [in |-> <<"P", "c", "n">>, out |-> <<"c">>] @@
  "pl.mulp" :> [in |-> <<"P", "c", "n">>, out |-> <<"c">>] @@
  "pl.divp" :> [in |-> <<"P", "c", "n">>, out |-> <<"c">>] @@
  "addr" :> [in |-> <<"b">>, out |-> <<"a">>] @@
  "addr.text" :> [in |-> <<"a">>, out |-> <<"t", "t">>] @@
  "addr.lock" :> [in |-> <<"a">>, out |-> <<"b", "b">>] @@
  "addr.dec" :> [in |-> <<"t">>, out |-> <<"a">>] @@
  "sc" :> [in |-> <<"b">>, out |-> <<"f">>] @@
  "sc.lock" :> [in |-> <<"f", "b">>, out |-> <<"b", "b">>] @@
  "sc.code" :> [in |-> <<"f", "b">>, out |-> <<"b">>] @@
  "sc.unlock" :> [in |-> <<"f", "b", "b", "b">>, out |-> <<"b">>] @@
  "sc.wit" :> [in |-> <<"f", "b", "b", "b">>, out |-> <<"L">>] @@
  "sc.wun" :> [in |-> <<"f", "L">>, out |-> <<"b">>] @@
  "ms" :> [in |-> <<"L">>, out |-> <<"b", "b", "b", "b">>] @@
  "tx.new" :> [in |-> << >>, out |-> <<"x">>] @@
  "tx.in" :> [in |-> <<"x", "b", "b", "b">>, out |-> << >>] @@
  "tx.inh" :> [in |-> <<"x", "h", "b">>, out |-> << >>] @@
  "tx.out" :> [in |-> <<"x", "b">>, out |-> << >>] @@
  "tx.set" :> [in |-> <<"x", "b", "b">>, out |-> << >>] @@
  "tx.ser" :> [in |-> <<"x">>, out |-> <<"b", "b">>] @@
  "tx.hash" :> [in |-> <<"x">>, out |-> <<"b", "b", "t">>] @@
  "tx.sizes" :> [in |-> <<"x">>, out |-> <<"t">>] @@
  "tx.rawh" :> [in |-> <<"x">>, out |-> <<"b">>] @@
  "tx.with" :> [in |-> <<"x">>, out |-> <<"b">>] @@
  "tx.raws" :> [in |-> <<"x", "k">>, out |-> <<"b">>] @@
  "tx.wits" :> [in |-> <<"x", "k">>, out |-> <<"b">>] @@
  "tx.sign" :> [in |-> <<"x", "k", "k">>, out |-> <<"t">>] @@
  "tx.sign1" :> [in |-> <<"x", "k">>, out |-> <<"t">>] @@
  "tx.embed" :> [in |-> <<"x", "b", "b">>, out |-> <<"t">>] @@
  "tx.embde" :> [in |-> <<"x", "p", "b">>, out |-> <<"t">>] @@
  "tx.check" :> [in |-> <<"x">>, out |-> <<"t">>] @@
  "tx.deser" :> [in |-> <<"x", "b">>, out |-> <<"t">>] @@
  "coin" :> [in |-> <<"t", "b">>, out |-> <<"o">>] @@
  "txb" :> [in |-> <<"o", "o", "k", "k", "a", "b", "b">>, out |-> <<"x">>] @@
  "hd" :> [in |-> <<"b">>, out |-> <<"H">>] @@
  "hd.child" :> [in |-> <<"H">>, out |-> <<"H">>] @@
  "hd.hard" :> [in |-> <<"H">>, out |-> <<"H">>] @@
  "hd.path" :> [in |-> <<"H">>, out |-> <<"H">>] @@
  "hd.neuter" :> [in |-> <<"H">>, out |-> <<"H">>] @@
  "hd.keys" :> [in |-> <<"H">>, out |-> <<"p">>] @@
  "hd.prv" :> [in |-> <<"H">>, out |-> <<"k">>] @@
  "hd.text" :> [in |-> <<"H">>, out |-> <<"t", "t">>] @@
  "hd.from" :> [in |-> <<"t">>, out |-> <<"H">>] @@
  "mn" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "mn.ent" :> [in |-> <<"t">>, out |-> <<"b", "b", "b">>] @@
  "mn.seed" :> [in |-> <<"t", "t">>, out |-> <<"b">>] @@
  "sb" :> [in |-> << >>, out |-> <<"B">>] @@
  "sb.data" :> [in |-> <<"B", "b">>, out |-> << >>] @@
  "sb.op" :> [in |-> <<"B">>, out |-> << >>] @@
  "sb.load" :> [in |-> <<"B", "t">>, out |-> << >>] @@
  "sb.reset" :> [in |-> <<"B">>, out |-> << >>] @@
  "sb.get" :> [in |-> <<"B">>, out |-> <<"b", "b">>] @@
  "vm.exec" :> [in |-> <<"E", "b">>, out |-> <<"t">>] @@
  "vm.verify" :> [in |-> <<"E", "b", "b">>, out |-> <<"t">>] @@
  "disasm" :> [in |-> <<"b">>, out |-> <<"t">>] @@
  "rmop" :> [in |-> <<"b">>, out |-> <<"b">>] @@
  "instrs" :> [in |-> <<"b">>, out |-> <<"L">>] @@
  "stk" :> [in |-> << >>, out |-> <<"K">>] @@
  "stk.push" :> [in |-> <<"K", "b">>, out |-> << >>] @@
  "stk.pop" :> [in |-> <<"K">>, out |-> <<"b">>] @@
  "stk.peek" :> [in |-> <<"K">>, out |-> <<"b", "t">>] @@
  "stk.mix" :> [in |-> <<"K">>, out |-> << >>] @@
  "stk.drop" :> [in |-> <<"K">>, out |-> << >>] @@
  "stk.copy" :> [in |-> <<"K">>, out |-> <<"K">>] @@
  "stk.clean" :> [in |-> <<"K">>, out |-> << >>] @@
  "num" :> [in |-> <<"b">>, out |-> <<"b">>] @@
  "msg.enc" :> [in |-> <<"M">>, out |-> <<"b", "t">>] @@
  "msg.dec" :> [in |-> <<"M", "b">>, out |-> <<"t">>] @@
  "msg.add" :> [in |-> <<"M", "h">>, out |-> <<"t">>] @@
  "msg.wire" :> [in |-> <<"M">>, out |-> <<"b", "M">>] @@
  "mpc.sch" :> [in |-> <<"k", "k", "h">>, out |-> <<"t", "t", "t">>] @@
  "mpc.ecdsa" :> [in |-> <<"k", "k", "h">>, out |-> <<"t", "t", "t">>])
\* the operations whose purpose is to change their first argument
Changing == {"buf.ints", "buf.bytes", "buf.vb", "buf.vs", "buf.reset", "tx.in", "tx.inh", "tx.out", "tx.set", "tx.sign", "tx.sign1", "tx.embed", "tx.embde", "tx.deser",
             "sb.data", "sb.op", "sb.load", "sb.reset", "stk.push", "stk.pop", "stk.mix", "stk.drop", "stk.clean", "msg.dec", "msg.add"}
Chosen == {"pl.enc", "pl.mulp", "pl.addp", "pl.add", "mpc.ecdsa"}          \* with randomness of their own
Protocol == {"mpc.sch", "mpc.ecdsa"}                  \* what was said as each step returned; the same values afterwards; the same steps again

\* what these return is all their own, and they keep nothing of what they take: the caller may write over either.
\* What the others return, or change, may be made of the very bytes they took.
Detached == {"b58.enc", "b58.dec", "b58c.enc", "b58c.dec", "b32.enc", "b32.dec", "wit.enc", "wit.dec", "id.str", "id.from", "hash", "big", "buf.new", "buf.ints", "buf.bytes", "buf.vb", "buf.vs",
             "buf.readn", "prv", "prv.ser", "prv.pub", "prv.add", "pub", "pub.add", "pub.ser", "pub.xy", "ecdsa.sign", "ecdsa.verify", "sch.sign", "sch.verify", "der", "sch.round",
             "pt", "pt.add", "pt.addc", "pt.double", "pt.mult", "pt.on", "pt.ser", "pt.deser", "raw.sch", "raw.ecdsa", "raw.parts", "raw.nonce", "pl.enc", "pl.dec", "pl.add", "pl.sub", "pl.addp", "pl.mulp", "pl.divp",
             "addr.text", "addr.dec", "ms", "tx.new", "tx.ser", "tx.hash", "tx.sizes", "tx.rawh", "tx.with", "tx.raws", "tx.wits", "tx.check", "tx.deser", "coin",
             "hd", "hd.child", "hd.hard", "hd.path", "hd.neuter", "hd.keys", "hd.prv", "hd.text", "hd.from", "mn", "mn.ent", "mn.seed", "sb", "sb.data", "sb.op", "sb.load", "sb.get",
             "vm.exec", "vm.verify", "disasm", "stk", "num", "msg.wire", "mpc.sch", "mpc.ecdsa", "mk.new", "mk.root", "mk.prove", "mk.verify"}

\* grp: cells which may share memory have the same number
AInit(init) == [cells |-> << >>, grp |-> << >>, next |-> 1, memo |-> "none" :> << >>]
Joined(s, a, n) ==
  IF a.f \in Detached THEN s.grp \o [k \in 1..n |-> s.next + k]
  ELSE LET g == { s.grp[a.args[k]] : k \in 1..Len(a.args) }
       IN [k \in 1..Len(s.grp) |-> IF s.grp[k] \in g THEN s.next ELSE s.grp[k]] \o [k \in 1..n |-> s.next]
\* the cells a call may change
Target(f, args) == IF f \in Changing THEN {args[1]} ELSE {}
Untouched(s, f, args, after) == /\ Len(after) = Len(s.cells)
                                /\ \A k \in 1..Len(after) : k \in Target(f, args) \/ after[k] = s.cells[k]
KeyOf(s, a) == JoinStr(<<a.f, IntToStr(a.p)>> \o [k \in 1..Len(a.args) |-> s.cells[a.args[k]]], " ")
Kinds(s, a) == a.f \in DOMAIN Sig /\ Len(a.args) = Len(Sig[a.f].in) /\ \A k \in 1..Len(a.args) : a.args[k] \in 1..Len(s.cells)
AStep(s, e) ==
  LET a == e.a
      has == "cells" \in DOMAIN e.r
  IN
  CASE e.op = "pool" -> [st |-> [s EXCEPT !.cells = IF has THEN e.r.cells ELSE [k \in 1..Len(a.cells) |-> "?"], !.grp = [k \in 1..Len(a.cells) |-> k], !.next = Len(a.cells) + 1], exp |-> [cells |-> "the caller's values"], ok |-> has /\ Len(e.r.cells) = Len(a.cells)]
    [] e.op = "drop" -> LET c == SubSeq(s.cells, 1, a.n) IN [st |-> [s EXCEPT !.cells = c, !.grp = SubSeq(s.grp, 1, a.n)], exp |-> [cells |-> c], ok |-> has /\ e.r.cells = c]
    [] e.op = "edit" ->
         IF ~has THEN [st |-> s, exp |-> [cells |-> s.cells], ok |-> FALSE]
         ELSE [st |-> [s EXCEPT !.cells = e.r.cells], exp |-> [cells |-> s.cells, but |-> a.k],
               ok |-> Len(e.r.cells) = Len(s.cells) /\ \A k \in 1..Len(s.cells) : (a.k <= Len(s.grp) /\ s.grp[k] = s.grp[a.k]) \/ e.r.cells[k] = s.cells[k]]
    [] e.op = "call" ->
         LET key == KeyOf(s, a)
             known == key \in DOMAIN s.memo
             res == [ok |-> e.r.ok, out |-> e.r.out, cells |-> IF a.f \in Changing THEN e.r.cells[a.args[1]] ELSE ""]
         IN IF ~has THEN [st |-> s, exp |-> [cells |-> s.cells], ok |-> FALSE]
            ELSE [st |-> [cells |-> e.r.cells \o e.r.out, grp |-> Joined(s, a, Len(e.r.out)), next |-> s.next + 1 + Len(e.r.out), memo |-> IF known \/ a.f \in Chosen THEN s.memo ELSE key :> res @@ s.memo],
                  exp |-> [cells |-> s.cells, same |-> IF known THEN s.memo[key] ELSE "any"],
                  ok |-> /\ Kinds(s, a)
                         /\ Untouched(s, a.f, a.args, e.r.cells)
                         /\ (known => s.memo[key] = res)
                         /\ (a.f \in Protocol => e.r.out[1] = e.r.out[2] /\ e.r.out[2] = e.r.out[3])
                         /\ Len(e.r.out) \in {0, Len(Sig[a.f].out)}]
=============================================================================
