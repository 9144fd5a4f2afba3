------------------------------- MODULE MCChunks -------------------------------
(***************************************************************************)
(* The server's way of cutting a profile into chunks, for every request    *)
(* over a small vocabulary, every order in which tickets and pools are     *)
(* visited and every size of tickets; then a function puts them together   *)
(* again.  The message grows by a little more than its tickets do (length  *)
(* prefixes): Grow for each pool that has any.  The server cuts at Max,    *)
(* below what may be sent, Send.                                           *)
(***************************************************************************)
EXTENDS Chunks, TLC
CONSTANTS Pools, Tickets, Sizes, Empty, Max, Send, Grow, Broken

VARIABLES pc, size, want, todo, cur, chunks, got
vars == <<pc, size, want, todo, cur, chunks, got>>

Request == [name |-> "prof", ext |-> "ext", pools |-> [p \in Pools |-> [spec |-> p, tix |-> want[p]]]]

Init == /\ size \in [Tickets -> Sizes]
        /\ want \in [Pools -> SUBSET Tickets]
        /\ todo = {<<t, p>> \in Tickets \X Pools : t \in want[p]}
        /\ cur = Empty
        /\ chunks = <<[p \in Pools |-> <<>>]>>
        /\ pc = "cut" /\ got = <<>>

\* Visit one ticket for one pool.
Visit == /\ pc = "cut" /\ todo # {}
         /\ \E x \in todo :
              LET s   == IF Broken = "nosize" THEN 1 ELSE size[x[1]]
                  new == cur + s >= Max
                  k   == IF new THEN Len(chunks) + 1 ELSE Len(chunks)
                  cs  == IF new THEN Append(chunks, [p \in Pools |-> <<>>]) ELSE chunks
              IN /\ cur' = (IF new THEN (IF Broken = "reset0" THEN 0 ELSE Empty) + (IF Broken = "first" THEN 0 ELSE s) ELSE cur + s)
                 /\ chunks' = (IF Broken = "lose" /\ new THEN cs ELSE [cs EXCEPT ![k][x[2]] = Append(@, x[1])])
                 /\ todo' = todo \ {x}
         /\ UNCHANGED <<pc, size, want, got>>

\* What is sent.  Every chunk is a whole profile with a part of the tickets.
Sent == [k \in DOMAIN chunks |->
           [ n |-> IF Broken = "count" THEN Len(chunks) - 1 ELSE Len(chunks), name |-> "prof", ext |-> "ext",
             pools |-> [p \in {q \in Pools : Broken # "omit" \/ chunks[k][q] # <<>>} |-> [spec |-> p, tix |-> chunks[k][p]]] ]]
Send1 == /\ pc = "cut" /\ todo = {}
         /\ pc' = "recv"
         /\ UNCHANGED <<size, want, todo, cur, chunks, got>>
\* The function reads as many chunks as are announced.
Recv == /\ pc = "recv"
        /\ got' = Append(got, Sent[Len(got) + 1])
        /\ pc' = (IF Sent[1].n <= Len(got') \/ Len(got') = Len(Sent) THEN "done" ELSE "recv")
        /\ UNCHANGED <<size, want, todo, cur, chunks>>
Next == Visit \/ Send1 \/ Recv
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE size[Head(s)] + Sum(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(k, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE q \in P : TRUE IN Sum(chunks[k][p]) + (IF chunks[k][p] = <<>> THEN 0 ELSE Grow) + SumOver(k, P \ {p})
True(k) == Empty + SumOver(k, Pools)

Fits == pc # "cut" => \A k \in DOMAIN chunks : True(k) <= Send
Right == pc = "done" => /\ Announced(got)
                        /\ WholeProfile(Request, got, {})
                        /\ Exact(Request, got)
                        /\ Len(got) = Len(chunks)
Ends == <>(pc = "done")
=============================================================================
