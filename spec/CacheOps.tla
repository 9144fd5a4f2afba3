------------------------------ MODULE CacheOps ------------------------------
(***************************************************************************)
(* The replicated ticket cache as a pure function of a prefix of the       *)
(* update log.                                                             *)
(*                                                                         *)
(* An entry of the log is a record [id, cmd, key, val].  Creating a ticket *)
(* (cmd = "ticket") names the ticket by the id the storage gave the entry; *)
(* the other commands name an existing ticket in key.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Subject(e) == IF e.cmd = "ticket" THEN e.id ELSE e.key

EmptyCache == [tix |-> <<>>, inact |-> {}, asg |-> <<>>]

\* The effect of one entry on a cache.
Apply(c, e) ==
  CASE e.cmd = "ticket"     -> [c EXCEPT !.tix = (e.id :> e.val) @@ @, !.inact = @ \cup {e.id}]
    [] e.cmd = "activate"   -> [c EXCEPT !.inact = @ \ {e.key}]
    [] e.cmd = "deactivate" -> [c EXCEPT !.inact = @ \cup {e.key}]
    [] e.cmd = "assign"     -> [c EXCEPT !.asg = (e.key :> e.val) @@ @]
    [] OTHER                -> c

RECURSIVE Replay(_, _)
Replay(c, es) == IF es = <<>> THEN c ELSE Replay(Apply(c, Head(es)), Tail(es))

CacheOf(log, n) == Replay(EmptyCache, SubSeq(log, 1, n))

Offered(c) == DOMAIN c.tix \ c.inact

(***************************************************************************)
(* The same, per ticket: the history of a ticket is the sequence of its    *)
(* changes of state [at, on].  Hist is kept incrementally by the monitor;  *)
(* HistOf defines it, and MCCacheOps checks that both views agree.         *)
(***************************************************************************)
Change(e, n) ==
  CASE e.cmd = "ticket"     -> <<[at |-> n, on |-> FALSE]>>
    [] e.cmd = "activate"   -> <<[at |-> n, on |-> TRUE]>>
    [] e.cmd = "deactivate" -> <<[at |-> n, on |-> FALSE]>>
    [] OTHER                -> <<>>

RECURSIVE HistOf(_, _, _)
HistOf(log, t, n) ==
  IF n = 0 THEN <<>>
  ELSE HistOf(log, t, n - 1) \o (IF Subject(log[n]) = t THEN Change(log[n], n) ELSE <<>>)

\* Last change of a history that lies at or before position a (0: none).
LastAt(h, a) == LET K == {k \in DOMAIN h : h[k].at <= a}
                IN IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k

OnAt(h, a) == LET k == LastAt(h, a) IN k > 0 /\ h[k].on

\* Positions in lo..hi at which the state of a ticket has to be looked at: lo, and every change after it.
Points(h, lo, hi) == {lo} \cup {h[k].at : k \in {j \in DOMAIN h : h[j].at > lo /\ h[j].at <= hi}}

OnSomewhere(h, lo, hi)  == \E a \in Points(h, lo, hi) : OnAt(h, a)
OffSomewhere(h, lo, hi) == \E a \in Points(h, lo, hi) : ~OnAt(h, a)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOn(h, lo, hi)  == MinOf({a \in Points(h, lo, hi) : OnAt(h, a)})
MinOff(h, lo, hi) == MinOf({a \in Points(h, lo, hi) : ~OnAt(h, a)})
=============================================================================
