----------------------------- MODULE FilterTrace -----------------------------
(***************************************************************************)
(* Validates what the real code put into pools.  Events:                   *)
(*   tickets  [tix]: the active tickets                                    *)
(*   fpool    [pool, got, filled]: indexes of the tickets found in it      *)
(*            filled: the function received a pool of this name            *)
(***************************************************************************)
EXTENDS Filters, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad
\* the tickets are in the first event
tix == Traces[t][1].tix

Viol(e) ==
  CASE e.e = "fpool" ->
         LET got  == Elems(e.got)
             want == {k \in DOMAIN tix : Meets(tix[k], e.pool)}
             dev  == {k \in DOMAIN tix : Deviant(tix[k], e.pool)}
         IN IF ~Fillable(e.pool) THEN (IF got = {} THEN {} ELSE {<<"invalid-pool-filled", e.pool>>})
            ELSE IF Cardinality(got) # Len(e.got) THEN {<<"pool-duplicate", e.pool>>}
            ELSE IF got = want THEN {}
            ELSE IF e.pool.ct.on /\ got = dev THEN {<<"known-creation-time", e.pool.ct>>}
            ELSE {<<"pool-filter", <<e.pool, "wrongly in", {<<k, tix[k]>> : k \in got \ want}, "missing", {<<k, tix[k]>> : k \in want \ got}>>>>}
    [] e.e = "died" -> {<<"server-died", e>>}
    [] e.e = "noanswer" -> {<<"no-answer", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
