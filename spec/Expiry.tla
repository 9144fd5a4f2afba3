------------------------------- MODULE Expiry --------------------------------
(***************************************************************************)
(* When tickets, inactive marks and assignments leave (C06), in terms of   *)
(* what can be seen from outside, which is never an instant but a window.  *)
(*                                                                         *)
(* tk: [c, x, h, s]: the time at which the ticket entered the log, its     *)
(*    expiration time, its changes of state, and its assignments.  A       *)
(*    change of state is [on, a, b]: it came into effect at some moment in *)
(*    a..b; h[1] is the creation.  An assignment is [a, b] likewise.       *)
(* f: [ttl, add, cycle, swept]: the lifetimes; how long maintenance may    *)
(*    take to notice; and a moment after which a whole maintenance cycle   *)
(*    is known to have begun and ended before what is being judged.        *)
(* All times are milliseconds on one clock.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Never == 1000000000
Lo(p, q) == IF p <= q THEN p ELSE q
Hi(p, q) == IF p >= q THEN p ELSE q
From(h, k)  == h[k].b                                         \* surely in effect from here ...
Until(h, k) == IF k = Len(h) THEN Never ELSE h[k + 1].a       \* ... up to here
Last(h, k)  == IF k = Len(h) THEN Never ELSE h[k + 1].b       \* possibly in effect up to here
States(h, on) == {k \in DOMAIN h : h[k].on = on}

\* Whatever became due at p must have been noticed by `at`.
Noticed(f, p, at) == p + f.cycle < at \/ p < f.swept
\* It was inactive beyond its lifetime, for long enough: it is forgotten.
Forgotten(f, tk, at) == \E k \in States(tk.h, FALSE) : LET p == Hi(From(tk.h, k), tk.c + f.ttl)
                                                          u == Until(tk.h, k)
                                                      IN IF u <= at THEN p + f.cycle < u ELSE Noticed(f, p, at)
\* It can never have been found inactive beyond its lifetime.
Retained(f, tk, at)  == \A k \in States(tk.h, FALSE) : tk.h[k].a <= at => Lo(Last(tk.h, k), at) <= tk.c + f.ttl

\* May, or must, a ticket be in a pool that was filled in a..b?
MayOffer(f, tk, a, b)  == /\ ~Noticed(f, Hi(tk.x, tk.h[1].b), a)
                          /\ \E k \in States(tk.h, TRUE) : tk.h[k].a <= b /\ Last(tk.h, k) >= a
                          /\ ~Forgotten(f, tk, a)
MustOffer(f, tk, a, b) == /\ b < tk.x
                          /\ \E k \in States(tk.h, TRUE) : From(tk.h, k) < a /\ Until(tk.h, k) > b
                          /\ Retained(f, tk, b)

\* May, or must, a watch that was open in a..b be answered?  (d: it takes that long to look.)
AsgEnd(f, tk) == tk.c + f.ttl + f.add
MayAnswer(f, tk, a, b)     == \E k \in DOMAIN tk.s : tk.s[k].a <= b /\ ~Noticed(f, Hi(tk.s[k].b, AsgEnd(f, tk)), a)
MustAnswer(f, tk, a, b, d) == b - a >= d /\ \E k \in DOMAIN tk.s : tk.s[k].b < a /\ a + d <= AsgEnd(f, tk)

\* What is held in memory at some moment of a..b: bounds.
MayHold(f, tk, a, b)  == tk.h[1].a <= b /\ ~Noticed(f, Hi(tk.x, tk.h[1].b), a) /\ ~Forgotten(f, tk, a)
MustHold(f, tk, a, b) == tk.h[1].b < a /\ b < tk.x /\ Retained(f, tk, b)
MayMark(f, tk, a, b)  == \E k \in States(tk.h, FALSE) : tk.h[k].a <= b /\ Last(tk.h, k) >= a /\ ~Noticed(f, Hi(tk.c + f.ttl, From(tk.h, k)), a)
MustMark(f, tk, a, b) == b <= tk.c + f.ttl /\ \E k \in States(tk.h, FALSE) : From(tk.h, k) < a /\ Until(tk.h, k) > b
MayAsg(f, tk, a, b)   == MayAnswer(f, tk, a, b)
MustAsg(f, tk, a, b)  == b <= AsgEnd(f, tk) /\ \E k \in DOMAIN tk.s : tk.s[k].b < a
=============================================================================
