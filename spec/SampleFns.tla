------------------------------- MODULE SampleFns -------------------------------
(***************************************************************************)
(* What the three sample matchmaking functions have to make of a profile   *)
(* whose pools are disjoint.                                               *)
(*   pools    pool key :> set of tickets                                   *)
(*   matches  sequence of [id, fn, profile, rosters]; rosters a sequence   *)
(*            of sequences of tickets (0: not a ticket that was offered)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SetOf(s) == {s[k] : k \in DOMAIN s}
PoolOf(pools, p) == IF p \in DOMAIN pools THEN pools[p] ELSE {}
All(pools) == UNION {pools[p] : p \in DOMAIN pools}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
TixOf(m) == Cat(m.rosters)
Used(matches) == UNION {SetOf(TixOf(matches[k])) : k \in DOMAIN matches}
RECURSIVE Length(_)
Length(ms) == IF ms = <<>> THEN 0 ELSE Len(TixOf(Head(ms))) + Length(Tail(ms))

\* ------------------------------------------------ what is particular to each
\* dims: [solo, br: size of a roster;  teams, comp: role :> how many per team]
TeamOk(dims, pools, r) ==
  /\ \A role \in DOMAIN dims.comp : Cardinality({k \in DOMAIN r : r[k] \in PoolOf(pools, role)}) = dims.comp[role]
  /\ \A k \in DOMAIN r : \E role \in DOMAIN dims.comp : r[k] \in PoolOf(pools, role)
Complete(f, dims, pools, m) ==
  CASE f = "solo" -> Len(m.rosters) = 1 /\ Len(m.rosters[1]) = dims.solo
    [] f = "team" -> Len(m.rosters) = dims.teams /\ \A k \in DOMAIN m.rosters : TeamOk(dims, pools, m.rosters[k])
    [] f = "br"   -> Len(m.rosters) = 1 /\ Len(m.rosters[1]) = dims.br /\ SetOf(m.rosters[1]) \subseteq PoolOf(pools, dims.brpool)
\* one more match could not be made of what is left
Exhausted(f, dims, pools, matches) ==
  LET U == Used(matches) IN
  CASE f = "solo" -> Cardinality(All(pools) \ U) < dims.solo
    [] f = "team" -> \E role \in DOMAIN dims.comp : Cardinality(PoolOf(pools, role) \ U) < dims.teams * dims.comp[role]
    [] f = "br"   -> Cardinality(PoolOf(pools, dims.brpool) \ U) < dims.br

\* ------------------------------------------------ what holds for all
NoTwice(matches) == Cardinality(Used(matches)) = Length(matches)
OnlyOffered(pools, matches) == Used(matches) \subseteq All(pools)
Ids(matches) == Cardinality({matches[k].id : k \in DOMAIN matches}) = Len(matches)
=============================================================================
