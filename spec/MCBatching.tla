----------------------------- MODULE MCBatching ------------------------------
(***************************************************************************)
(* The writer of updates: it collects what has been queued until the batch *)
(* is full or its timer has run out, writes the batch, which takes the     *)
(* storage some time, and goes on.  Time passes only when nothing is due.  *)
(*                                                                         *)
(* Broken: "debounce" restarts the timer with every update; "lifo" takes   *)
(* the newest queued update; "nolimit" ignores the size; "patient" waits   *)
(* for the timer also when the batch is full; "again" keeps the last       *)
(* update of a batch for the next one; "drop" loses the update that makes  *)
(* the batch full; "latetimer" begins to wait when the batch would be due; *)
(* "onlyfull" never writes incomplete batches.                             *)
(***************************************************************************)
EXTENDS Batching, TLC

CONSTANTS Updates, MaxTime, Most, Wait, MaxWrite, Broken

VARIABLES now, q, batch, since, busy, prev, out, made
vars == <<now, q, batch, since, busy, prev, out, made>>
\* busy: 0, or 1 + the time at which the storage answers at the latest

Init == /\ now = 0 /\ q = <<>> /\ batch = <<>> /\ since = 0 /\ busy = 0 /\ prev = 0 /\ out = <<>> /\ made = 0

Queue == /\ made < Updates /\ made' = made + 1
         /\ q' = Append(q, [n |-> made + 1, at |-> now])
         /\ UNCHANGED <<now, batch, since, busy, prev, out>>

Full == /\ Len(batch) >= Most /\ Broken \notin {"nolimit", "patient"}
Due == /\ now >= since + Wait * (IF Broken = "latetimer" THEN 2 ELSE 1)
       /\ Broken = "onlyfull" => Len(batch) >= Most
Collecting == busy = 0 /\ ~Full

Take == /\ Collecting /\ q # <<>> /\ (Len(batch) < Most \/ Broken = "nolimit")
        /\ LET k == IF Broken = "lifo" THEN Len(q) ELSE 1
           IN /\ batch' = IF Broken = "drop" /\ Len(batch) = Most - 1 THEN batch ELSE Append(batch, q[k])
              /\ q' = SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
        /\ since' = IF Broken = "debounce" THEN now ELSE since
        /\ UNCHANGED <<now, busy, prev, out, made>>

Write == /\ busy = 0 /\ batch # <<>> /\ (Full \/ Due)
         /\ busy' = 1 + now + MaxWrite
         /\ out' = Append(out, [b |-> batch, at |-> now, prev |-> prev])
         /\ UNCHANGED <<now, q, batch, since, prev, made>>
\* The timer runs out with nothing to write.
Again == /\ busy = 0 /\ batch = <<>> /\ Due /\ since' = now /\ since # now
         /\ UNCHANGED <<now, q, batch, busy, prev, out, made>>
Done == /\ busy # 0 /\ busy' = 0 /\ prev' = now /\ since' = now
        /\ batch' = IF Broken = "again" THEN <<batch[Len(batch)]>> ELSE <<>>
        /\ UNCHANGED <<now, q, out, made>>

\* The writer is quick: time passes only while it has nothing to do.
Tick == /\ now < MaxTime
        /\ ~(Collecting /\ q # <<>> /\ (Len(batch) < Most \/ Broken = "nolimit")) /\ ~(busy = 0 /\ batch # <<>> /\ (Full \/ Due)) /\ ~(busy = 0 /\ batch = <<>> /\ Due /\ since # now)
        /\ busy = 0 \/ now + 1 < busy
        /\ now' = now + 1
        /\ UNCHANGED <<q, batch, since, busy, prev, out, made>>
Next == Queue \/ Take \/ Write \/ Again \/ Done \/ Tick
Spec == Init /\ [][Next]_vars

RECURSIVE Concat(_)
Concat(bs) == IF bs = <<>> THEN <<>> ELSE [k \in DOMAIN bs[1].b |-> bs[1].b[k].n] \o Concat(SubSeq(bs, 2, Len(bs)))
Sizes == \A k \in DOMAIN out : SizeOK(out[k].b, Most)
Order == LET ns == Concat(out) IN InOrder(ns) /\ Once(ns) /\ \A k \in DOMAIN ns : ns[k] = k
Times == \A k \in DOMAIN out : /\ InTime(out[k].b, out[k].at, out[k].prev, Wait, 0)
                               /\ AtOnce(out[k].b, out[k].at, out[k].prev, Most, 0)
\* ... and whatever is not written yet is not overdue.
Pending == LET all == (IF busy = 0 THEN batch ELSE <<>>) \o q
           IN busy = 0 /\ all # <<>> => now <= Later(First(all), prev) + Wait
=============================================================================
