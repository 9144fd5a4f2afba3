------------------------------ MODULE SampleTrace ------------------------------
(***************************************************************************)
(* Validates runs of the sample functions.                                 *)
(*   sf [fn, prof, ok, pools, matches]                                     *)
(*      pools [key, tix]; matches [id, fn, profile, rosters] (tickets by   *)
(*      number, 0: not exactly one that was offered)                       *)
(***************************************************************************)
EXTENDS SampleFns, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad

dims == [solo |-> 2, br |-> 100, brpool |-> "competitive", teams |-> 2,
         comp |-> [r \in {"tank", "healer", "dps"} |-> IF r = "dps" THEN 3 ELSE 1]]
names == [solo |-> "a-simple-1v1-matchfunction", team |-> "team-shooter-5v5-matchfunction", br |-> "battle-royale"]

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
ViolSf(e) ==
  LET pools == [k \in {e.pools[j].key : j \in DOMAIN e.pools} |-> SetOf(e.pools[CHOOSE j \in DOMAIN e.pools : e.pools[j].key = k].tix)]
      ms == e.matches
      sizes == <<e.fn, {<<p, Cardinality(pools[p])>> : p \in DOMAIN pools}, Len(ms)>>
  IN V(e.ok, "run-failed", <<sizes, e.why>>)
     \cup {<<"incomplete-match", <<sizes, ms[k]>>>> : k \in {j \in DOMAIN ms : ~Complete(e.fn, dims, pools, ms[j])}}
     \cup V(NoTwice(ms), "ticket-twice", sizes)
     \cup V(OnlyOffered(pools, ms), "ticket-not-offered", sizes)
     \cup V(Exhausted(e.fn, dims, pools, ms), "tickets-left", sizes)
     \cup V(Ids(ms) /\ \A k \in DOMAIN ms : ms[k].id # "", "match-id", sizes)
     \cup {<<"match-names", <<sizes, ms[k].fn, ms[k].profile, e.prof>>>> : k \in {j \in DOMAIN ms : ms[j].fn # names[e.fn] \/ ms[j].profile # e.prof}}
Viol(e) ==
  CASE e.e = "sf" -> ViolSf(e)
    [] e.e = "panic" -> {<<"function-panicked", e>>}
    [] e.e = "hang" -> {<<"function-never-ends", e>>}
    [] e.e = "died" -> {<<"server-died", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
