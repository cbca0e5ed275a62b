------------------------------ MODULE MC_Inter ------------------------------
(* On terms instead of values, every interleaving of the steps of three          *)
(* workers' calls (reading arguments, working, writing the object that is the    *)
(* worker's own): what the calls say is what they say to one worker alone, as    *)
(* long as calls keep nothing between them.                                       *)
EXTENDS Integers, Sequences
CONSTANT Leaky      \* calls keep what they work on in one place for all (as they must not)
W == 1..3
Progs == { << >>, <<"get">>, <<"put">>, <<"put", "get">>, <<"get", "put">>, <<"put", "put">>, <<"put", "get", "put">> }
\* what the worker's own object is and what its calls said: terms over the shared value "S" and its own "o"
Apply(own, op) == IF op = "put" THEN Append(own, "S") ELSE own
Said(own, op) == <<op, own>>
RECURSIVE RunAlone(_, _, _, _)
RunAlone(p, n, own, out) == IF n > Len(p) THEN out ELSE RunAlone(p, n + 1, Apply(own, p[n]), Append(out, Said(own, p[n])))
VARIABLES prog, pc, phase, reg, scratch, own, out
ivars == <<prog, pc, phase, reg, scratch, own, out>>
IInit == /\ prog \in [W -> Progs] /\ pc = [w \in W |-> 1] /\ phase = [w \in W |-> "idle"] /\ reg = [w \in W |-> << >>] /\ scratch = << >> /\ own = [w \in W |-> << >>] /\ out = [w \in W |-> << >>]
Busy(w) == pc[w] <= Len(prog[w])
ReadArgs(w) == /\ Busy(w) /\ phase[w] = "idle" /\ phase' = [phase EXCEPT ![w] = "read"]
               /\ IF Leaky THEN scratch' = own[w] /\ UNCHANGED reg ELSE reg' = [reg EXCEPT ![w] = own[w]] /\ UNCHANGED scratch
               /\ UNCHANGED <<prog, pc, own, out>>
Work(w) == /\ phase[w] = "read" /\ phase' = [phase EXCEPT ![w] = "idle"]
           /\ LET v == IF Leaky THEN scratch ELSE reg[w] IN
              /\ out' = [out EXCEPT ![w] = Append(@, Said(v, prog[w][pc[w]]))]
              /\ own' = [own EXCEPT ![w] = Apply(v, prog[w][pc[w]])]
           /\ pc' = [pc EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<prog, reg, scratch>>
Spec == IInit /\ [][\E w \in W : ReadArgs(w) \/ Work(w)]_ivars
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AsAlone == \A w \in W : Prefix(out[w], RunAlone(prog[w], 1, << >>, << >>))
Done == (\A w \in W : ~Busy(w)) => \A w \in W : out[w] = RunAlone(prog[w], 1, << >>, << >>)
=============================================================================
