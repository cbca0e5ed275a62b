------------------------------- MODULE MC_Wire -------------------------------
(* Two ends of a connection, with several senders and one receive loop each,    *)
(* a network that carries a bounded number of pieces and may fail at any time,  *)
(* and either end closing at any time: the design that connection.go/stream.go  *)
(* follow.  StreamSpec is what an observer of one such wire may see: Seen below *)
(* is its notion of a wire (whole frames, then the beginning of one).           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senders,   \* for each end the number of its senders
          Count,     \* messages of each sender
          Pieces,    \* pieces of a frame
          Window,    \* pieces in flight
          Shared     \* one lock for reading and writing (as the code once had)
TheSenders == <<2, 1>>
Ends == {1, 2}
Other(e) == 3 - e
S(e) == 1..Senders[e]
VARIABLES pc, did, fails, wlock, flight, log, rd, part, got, shut, note
vars == <<pc, did, fails, wlock, flight, log, rd, part, got, shut, note>>
(* pc[e][k]: 0 idle, 1..Pieces: that piece is next; did[e][k]: messages sent;    *)
(* fails: a sender's sends that returned an error; wlock[e]: 0 or the holder     *)
(* (-1: the reader, Shared only); flight[e]: pieces from e to the other end;     *)
(* log[e]: all that e ever put on the wire; rd[e]: "wait" | "read" | "done"      *)
Init == /\ pc = [e \in Ends |-> [k \in S(e) |-> 0]] /\ did = [e \in Ends |-> [k \in S(e) |-> 0]] /\ fails = [e \in Ends |-> [k \in S(e) |-> 0]]
        /\ wlock = [e \in Ends |-> 0] /\ flight = [e \in Ends |-> << >>] /\ log = [e \in Ends |-> << >>]
        /\ rd = [e \in Ends |-> "wait"] /\ part = [e \in Ends |-> << >>] /\ got = [e \in Ends |-> << >>]
        /\ shut = [e \in Ends |-> FALSE] /\ note = [e \in Ends |-> 0]
Down(e) == shut[e] \/ shut[Other(e)]
Begin(e, k) == /\ pc[e][k] = 0 /\ did[e][k] < Count /\ wlock[e] = 0
               /\ wlock' = [wlock EXCEPT ![e] = k] /\ pc' = [pc EXCEPT ![e][k] = 1]
               /\ UNCHANGED <<did, fails, flight, log, rd, part, got, shut, note>>
Put(e, k) == /\ pc[e][k] \in 1..Pieces /\ ~Down(e) /\ Len(flight[e]) < Window
             /\ LET p == <<k, did[e][k] + 1, pc[e][k]>> IN flight' = [flight EXCEPT ![e] = Append(@, p)] /\ log' = [log EXCEPT ![e] = Append(@, p)]
             /\ pc' = [pc EXCEPT ![e][k] = @ + 1]
             /\ UNCHANGED <<did, fails, wlock, rd, part, got, shut, note>>
End(e, k) == /\ pc[e][k] = Pieces + 1
             /\ pc' = [pc EXCEPT ![e][k] = 0] /\ did' = [did EXCEPT ![e][k] = @ + 1] /\ wlock' = [wlock EXCEPT ![e] = 0]
             /\ UNCHANGED <<fails, flight, log, rd, part, got, shut, note>>
\* the network refuses: the send returns an error and the sender gives up
Fail(e, k) == /\ pc[e][k] \in 1..Pieces /\ Down(e)
              /\ pc' = [pc EXCEPT ![e][k] = 0] /\ did' = [did EXCEPT ![e][k] = Count] /\ fails' = [fails EXCEPT ![e][k] = @ + 1] /\ wlock' = [wlock EXCEPT ![e] = 0]
              /\ UNCHANGED <<flight, log, rd, part, got, shut, note>>
\* the receive loop
Lock(e) == /\ rd[e] = "wait" /\ IF Shared THEN wlock[e] = 0 /\ wlock' = [wlock EXCEPT ![e] = -1] ELSE UNCHANGED wlock
           /\ rd' = [rd EXCEPT ![e] = "read"] /\ UNCHANGED <<pc, did, fails, flight, log, part, got, shut, note>>
Take(e) == LET o == Other(e) IN
           /\ rd[e] = "read" /\ ~shut[e] /\ flight[o] # << >>
           /\ LET p == Append(part[e], flight[o][1]) IN
              /\ flight' = [flight EXCEPT ![o] = Tail(@)]
              /\ IF Len(p) < Pieces THEN part' = [part EXCEPT ![e] = p] /\ UNCHANGED <<got, rd, wlock>>
                 ELSE /\ part' = [part EXCEPT ![e] = << >>] /\ got' = [got EXCEPT ![e] = Append(@, p)]
                      /\ rd' = [rd EXCEPT ![e] = "wait"] /\ (IF Shared THEN wlock' = [wlock EXCEPT ![e] = 0] ELSE UNCHANGED wlock)
           /\ UNCHANGED <<pc, did, fails, log, shut, note>>
\* its own end is closed, or the other end is and all that was on the way has been read
Eof(e) == /\ rd[e] = "read" /\ (shut[e] \/ (shut[Other(e)] /\ flight[Other(e)] = << >>))
          /\ rd' = [rd EXCEPT ![e] = "done"] /\ note' = [note EXCEPT ![e] = @ + 1]
          /\ (IF Shared THEN wlock' = [wlock EXCEPT ![e] = 0] ELSE UNCHANGED wlock)
          /\ UNCHANGED <<pc, did, fails, flight, log, part, got, shut>>
Close(e) == /\ ~shut[e] /\ shut' = [shut EXCEPT ![e] = TRUE] /\ UNCHANGED <<pc, did, fails, wlock, flight, log, rd, part, got, note>>
SendStep == \E e \in Ends : \E k \in S(e) : Begin(e, k) \/ Put(e, k) \/ End(e, k) \/ Fail(e, k)
ReadStep == \E e \in Ends : Lock(e) \/ Take(e) \/ Eof(e)
Next == SendStep \/ ReadStep \/ \E e \in Ends : Close(e)
Fair == /\ \A e \in Ends : WF_vars(Lock(e)) /\ WF_vars(Take(e)) /\ WF_vars(Eof(e))
        /\ \A e \in Ends : \A k \in S(e) : SF_vars(Begin(e, k)) /\ WF_vars(Put(e, k)) /\ WF_vars(End(e, k)) /\ WF_vars(Fail(e, k))
Spec == Init /\ [][Next]_vars /\ Fair

\* a wire: whole frames, then the beginning of one
Seen(w) == \A j \in 1..Len(w) : LET at == ((j - 1) % Pieces) + 1 IN w[j][3] = at /\ (at > 1 => w[j][1] = w[j - 1][1] /\ w[j][2] = w[j - 1][2])
Clean == \A e \in Ends : Shared \/ (~Down(e) => Seen(log[e]))
Msgs(q) == [j \in 1..Len(q) |-> <<q[j][1][1], q[j][1][2]>>]
Mixed == \A e \in Ends : \A j \in 1..Len(got[e]) : \A p \in 1..Pieces : got[e][j][p] = <<got[e][j][1][1], got[e][j][1][2], p>>
Order == \A e \in Ends : LET m == Msgs(got[e]) IN \A k \in S(Other(e)) : LET mine == SelectSeq(m, LAMBDA x : x[1] = k) IN \A j \in 1..Len(mine) : mine[j] = <<k, j>>
Once == \A e \in Ends : note[e] <= 1 /\ (note[e] = 1 <=> rd[e] = "done")
\* nothing is delivered after the disconnect
Quiet == [][\A e \in Ends : note[e] = 1 => got'[e] = got[e]]_vars
Silent == [][\A e \in Ends : shut[e] => log'[e] = log[e]]_vars
\* whatever is sent arrives unless somebody closes; everybody who sends comes to an end; a close is noticed
Arrives == \A e \in Ends : <>(Down(e) \/ Len(got[e]) = Senders[Other(e)] * Count)
Returns == \A e \in Ends : \A k \in S(e) : <>(did[e][k] = Count)
Noticed == \A e \in Ends : Down(e) ~> note[e] = 1
=============================================================================
