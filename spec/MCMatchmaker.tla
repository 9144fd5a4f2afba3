---------------------------- MODULE MCMatchmaker -----------------------------
(***************************************************************************)
(* The way in which the example matchmaker activates tickets: a queue of   *)
(* ids, from which it takes up to Most ids at a time, makes a call for     *)
(* each lot without waiting, and at the end waits for all the calls.  With *)
(* Who = "front" players' tickets are queued while this goes on, again and *)
(* again; with Who = "main" it happens once per cycle, after the tickets   *)
(* of the rejected matches have been queued.                               *)
(*                                                                         *)
(* Broken: "lateadd" (the original code) counts a call in the group to     *)
(* wait for only once the call's goroutine runs; "nowait" does not wait;   *)
(* "rest" stops after a full lot; "one" takes one id too many; "shared"    *)
(* lets the calls use the collecting variable; "keep" forgets to clear it; *)
(* "bounded" (the original code) queues all rejected tickets before the    *)
(* first is taken, in a queue with room for Cap; "skip" forgets the last   *)
(* ticket of a match; "all" queues the accepted matches as well.           *)
(***************************************************************************)
EXTENDS Matchmaker, SequencesExt

CONSTANTS Who, Tickets, Cycles, Most, Cap, Big, Broken
VARIABLES m, bad, pc, q, lot, done, calls, wg, made, cyc, rej, counted
vars == <<m, bad, pc, q, lot, done, calls, wg, made, cyc, rej, counted>>

Sizes == {<<1>>, <<2, 1>>, <<3>>, <<2, 2, 1>>, <<4, 1>>} \cup (IF Big THEN {<<3, 3, 1>>, <<1, 1, 2>>, <<5, 2>>} ELSE {})

RECURSIVE Run(_, _)
Run(r, es) == IF es = <<>> THEN r
              ELSE Run([s |-> MStep(r.s, es[1]), b |-> r.b \cup {x[1] : x \in MViol(r.s, es[1], Most)}], Tail(es))
Emit(es) == LET r == Run([s |-> m, b |-> bad], es) IN m' = r.s /\ bad' = r.b

\* calls: [st, ids, in]: st one of go (goroutine not running yet), open, done; in: counted by the group
Init == /\ m = M0 /\ bad = {} /\ q = <<>> /\ lot = <<>> /\ done = FALSE /\ calls = <<>> /\ wg = 0 /\ made = 0
        /\ cyc = 0 /\ rej = <<>> /\ counted = 0
        /\ pc = IF Who = "front" THEN "test" ELSE "fetch"

\* ---- players
Make == /\ Who = "front" /\ made < Tickets /\ Len(q) < Cap
        /\ made' = made + 1 /\ q' = Append(q, made + 1)
        /\ Emit(<<[e |-> "made", id |-> made + 1]>>)
        /\ UNCHANGED <<pc, lot, done, calls, wg, cyc, rej, counted>>

\* ---- the matchmaking loop: a cycle with one match of each size in some sequence of sizes, each rejected or not
Fetch == /\ pc = "fetch" /\ cyc < Cycles
         /\ \E ss \in Sizes : \E r \in SUBSET DOMAIN ss :
              LET K(k) == cyc * 10 + k
                  tix(k) == [j \in 1..ss[k] |-> K(k) * Wide + j]
                  evs == <<[e |-> "fetch"], [e |-> "rejects", n |-> counted]>>
                         \o [k \in DOMAIN ss |-> [e |-> "match", k |-> K(k), n |-> ss[k]]]
                         \o <<[e |-> "fetched"]>>
                  R == IF Broken = "all" THEN DOMAIN ss ELSE r
                  sel == SelectSeq([k \in DOMAIN ss |-> k], LAMBDA k : k \in R)
              IN /\ Emit(evs)
                 /\ rej' = FlattenSeq([j \in DOMAIN sel |-> IF Broken = "skip" THEN SubSeq(tix(sel[j]), 1, ss[sel[j]] - 1) ELSE tix(sel[j])])
                 /\ counted' = counted + Cardinality(r)
         /\ cyc' = cyc + 1 /\ pc' = "queue"
         /\ UNCHANGED <<q, lot, done, calls, wg, made>>
EnQueue == /\ pc = "queue" /\ rej # <<>> /\ (Broken = "bounded" => Len(q) < Cap)
           /\ q' = Append(q, rej[1]) /\ rej' = Tail(rej)
           /\ UNCHANGED <<m, bad, pc, lot, done, calls, wg, made, cyc, counted>>
Queued == /\ pc = "queue" /\ rej = <<>> /\ pc' = "test" /\ lot' = <<>> /\ done' = FALSE
          /\ UNCHANGED <<m, bad, q, calls, wg, made, cyc, rej, counted>>

\* ---- activateTickets
Full == Len(lot) = Most + (IF Broken = "one" THEN 1 ELSE 0)
Test == /\ pc = "test"
        /\ IF Full \/ ~done
           THEN /\ pc' = "take" /\ lot' = IF Broken = "keep" /\ Full THEN <<lot[1]>> ELSE <<>>
                /\ calls' = IF Broken = "shared" THEN [k \in DOMAIN calls |-> IF calls[k].st = "go" THEN [calls[k] EXCEPT !.ids = lot'] ELSE calls[k]] ELSE calls
           ELSE pc' = "wait" /\ UNCHANGED <<lot, calls>>
        /\ UNCHANGED <<m, bad, q, done, wg, made, cyc, rej, counted>>
Take == /\ pc = "take" /\ ~done
        /\ IF q # <<>>
           THEN /\ lot' = Append(lot, q[1]) /\ q' = Tail(q) /\ done' = (Len(lot') = Most + (IF Broken = "one" THEN 1 ELSE 0))
                /\ calls' = IF Broken = "shared" THEN [k \in DOMAIN calls |-> IF calls[k].st = "go" THEN [calls[k] EXCEPT !.ids = lot'] ELSE calls[k]] ELSE calls
           ELSE done' = TRUE /\ UNCHANGED <<lot, q, calls>>
        /\ UNCHANGED <<m, bad, pc, wg, made, cyc, rej, counted>>
Spawn == /\ pc = "take" /\ done
         /\ IF lot # <<>>
            THEN /\ done' = (IF Full /\ Broken # "rest" THEN FALSE ELSE done)
                 /\ calls' = Append(calls, [st |-> "go", ids |-> lot])
                 /\ wg' = IF Broken \in {"lateadd", "nowait"} THEN wg ELSE wg + 1
            ELSE UNCHANGED <<done, calls, wg>>
         /\ pc' = IF Broken = "rest" THEN "wait" ELSE "test"
         /\ UNCHANGED <<m, bad, q, lot, made, cyc, rej, counted>>
\* the calls themselves
Call(k) == /\ calls[k].st = "go"
           /\ calls' = [calls EXCEPT ![k].st = "open"]
           /\ wg' = IF Broken = "lateadd" THEN wg + 1 ELSE wg
           /\ Emit(<<[e |-> "act", a |-> k, ids |-> calls[k].ids]>>)
           /\ UNCHANGED <<pc, q, lot, done, made, cyc, rej, counted>>
Answer(k) == /\ calls[k].st = "open"
             /\ calls' = [calls EXCEPT ![k].st = "done", ![k].ids = <<>>]
             /\ wg' = IF Broken = "nowait" THEN wg ELSE wg - 1
             /\ Emit(<<[e |-> "acted", a |-> k]>>)
             /\ UNCHANGED <<pc, q, lot, done, made, cyc, rej, counted>>
Wait == /\ pc = "wait" /\ wg = 0
        /\ pc' = IF Who = "front" THEN "test" ELSE "fetch"
        /\ lot' = <<>> /\ done' = FALSE
        /\ Who = "front" => (q # <<>> \/ made < Tickets)   \* otherwise, it has nothing to do any more
        /\ UNCHANGED <<m, bad, q, calls, wg, made, cyc, rej, counted>>
\* the end: nothing is left to do
Idle == /\ \A k \in DOMAIN calls : calls[k].st = "done"
        /\ IF Who = "front" THEN pc = "wait" /\ q = <<>> /\ made = Tickets ELSE pc = "fetch" /\ cyc = Cycles
End == /\ Idle /\ pc' = "end"
       /\ Emit(<<[e |-> "fetch"], [e |-> "rejects", n |-> counted], [e |-> "end"]>>)
       /\ UNCHANGED <<q, lot, done, calls, wg, made, cyc, rej, counted>>

Next == Make \/ Fetch \/ EnQueue \/ Queued \/ Test \/ Take \/ Spawn \/ Wait \/ End
        \/ (\E k \in DOMAIN calls : Call(k) \/ Answer(k))
        \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Good == bad = {}
=============================================================================
