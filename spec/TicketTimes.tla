----------------------------- MODULE TicketTimes -----------------------------
(***************************************************************************)
(* What a created ticket holds (C02): the rule for its creation and        *)
(* expiration times, over exact timestamps <<day, second of day, nanos>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Day == 86400
Stamp(d, s, n) == <<d, s, n>>
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Leq(a, b) == a = b \/ Less(a, b)
Plus(a, secs) == LET x == a[2] + (secs % Day) IN <<a[1] + (secs \div Day) + (x \div Day), x % Day, a[3]>>

\* 0001-01-01 .. 9999-12-31, nanos in range; as timestamps are defined to be
Valid(a) == /\ a[1] \in -719162..2932896
            /\ a[3] \in 0..999999999

\* has: the field was present
Created(sub, created, before, after) ==
  IF sub.has /\ Valid(sub.at) THEN created = sub.at
  ELSE Leq(before, created) /\ Leq(created, after)

Expires(sub, created, ttl) ==
  LET limit == Plus(created, ttl)
  IN IF sub.has /\ Valid(sub.at) /\ Leq(sub.at, limit) THEN sub.at ELSE limit
=============================================================================
