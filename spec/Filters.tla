------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* Which tickets a pool holds (C07).                                       *)
(*                                                                         *)
(* Doubles are given by their rank among the doubles of the scenario, or   *)
(* NaN; times by their rank among its times, or None (absent), or Invalid. *)
(* A filter only compares, so ranks lose nothing; the harness maps ranks   *)
(* to concrete values, several ways, order-preserving.                     *)
(*                                                                         *)
(* ticket: [tags, strs, dbls, ct]; strs and dbls are sequences of pairs    *)
(* <<key, value>> with distinct keys.  pool: [tags, strs, dbls, ct] with   *)
(* dbls a sequence of [arg, min, max, bounds], ct = [on, start, end,       *)
(* bounds]; bounds as in the protocol: 0 none excluded, 1 the minimum,     *)
(* 2 the maximum, 3 both.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NaN     == 1000
None    == 1001
Invalid == 1002

Elems(s) == {s[k] : k \in DOMAIN s}
Value(kv, key) == {x[2] : x \in {y \in Elems(kv) : y[1] = key}}   \* {} or {value}

InRange(v, lo, hi, b) ==
  /\ v # NaN /\ lo # NaN /\ hi # NaN
  /\ IF b \in {1, 3} THEN v > lo ELSE v >= lo
  /\ IF b \in {2, 3} THEN v < hi ELSE v <= hi

MeetsTags(t, p) == Elems(p.tags) \subseteq Elems(t.tags)
MeetsStrs(t, p) == \A f \in Elems(p.strs) : Value(t.strs, f[1]) = {f[2]}
MeetsDbls(t, p) == \A f \in Elems(p.dbls) : \E v \in Value(t.dbls, f.arg) : InRange(v, f.min, f.max, f.bounds)
MeetsTime(t, p) == p.ct.on =>
  /\ p.ct.start = None \/ (IF p.ct.bounds \in {1, 3} THEN t.ct > p.ct.start ELSE t.ct >= p.ct.start)
  /\ p.ct.end = None   \/ (IF p.ct.bounds \in {2, 3} THEN t.ct < p.ct.end ELSE t.ct <= p.ct.end)

Rest(t, p)  == MeetsTags(t, p) /\ MeetsStrs(t, p) /\ MeetsDbls(t, p)
Meets(t, p) == Rest(t, p) /\ MeetsTime(t, p)

Fillable(p) == ~p.ct.on \/ (p.ct.start # Invalid /\ p.ct.end # Invalid)

(***************************************************************************)
(* The known finding of C07: as implemented (and pinned by the             *)
(* repository's unit tests) the creation-time filter has its comparisons   *)
(* the wrong way round, and an absent time stands for the epoch, before    *)
(* every creation time used here.                                          *)
(***************************************************************************)
DeviantTime(t, p) == p.ct.on =>
  /\ p.ct.start # None /\ t.ct < p.ct.start
  /\ p.ct.end = None \/ t.ct > p.ct.end
Deviant(t, p) == Rest(t, p) /\ DeviantTime(t, p)
=============================================================================
