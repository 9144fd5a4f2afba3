------------------------------ MODULE Batching -------------------------------
(***************************************************************************)
(* What is promised about the batches in which queued updates are written  *)
(* to the state storage.  A batch is the sequence of the updates it        *)
(* carries, each [n: its number in the order of queueing, at: since when   *)
(* it has been queued]; it is written at some time, while the one before   *)
(* it was finished at time prev.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Later(a, b) == IF a >= b THEN a ELSE b
SizeOK(batch, most) == Len(batch) <= most
\* The earliest queued update of the batch, and the one that made it full.
First(batch) == CHOOSE x \in {batch[k].at : k \in DOMAIN batch} : \A k \in DOMAIN batch : x <= batch[k].at
Last(batch) == CHOOSE x \in {batch[k].at : k \in DOMAIN batch} : \A k \in DOMAIN batch : x >= batch[k].at
\* An incomplete batch is written at most the waiting time after its first update.
InTime(batch, written, prev, wait, slack) == written <= Later(First(batch), prev) + wait + slack
\* A full one as soon as it is full.
AtOnce(batch, written, prev, most, slack) == Len(batch) = most => written <= Later(Last(batch), prev) + slack
\* No update is passed over: the batches, one after the other, are the queue.
InOrder(ns) == \A k \in 1..(Len(ns) - 1) : ns[k] < ns[k + 1]
Once(ns) == \A j, k \in DOMAIN ns : j # k => ns[j] # ns[k]
=============================================================================
