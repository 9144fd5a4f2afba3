--------------------------- MODULE MatchmakerTrace ---------------------------
(* Validates what the real example matchmaker asks of a server against       *)
(* Matchmaker.  mcfg [most]: how many ids a call may carry.                   *)
EXTENDS Matchmaker, Integers, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, s, bad

Init == t \in 1..Num /\ l = 0 /\ s = M0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN /\ bad' = {<<x[1], ToString(x[2])>> : x \in MViol(s, e, Traces[t][1].most)}
              /\ s' = MStep(s, e)
Spec == Init /\ [][Next]_<<t, l, s, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
