------------------------------- MODULE OMTrace -------------------------------
(***************************************************************************)
(* Validates recorded traces of the real system against Monitor: the       *)
(* traces are files T1 .. TN (environment), each a JSON array of events.   *)
(* Every broken rule is printed; a trace is validated to its end even so.  *)
(***************************************************************************)
EXTENDS Monitor, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]

VARIABLES t, l, m, bad

Init == t \in 1..Num /\ l = 0 /\ m = InitM /\ bad = {}
Next == /\ l < Len(Traces[t])
        /\ l' = l + 1
        /\ LET e == Traces[t][l + 1]
           IN /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(m, e)}
              /\ m' = Step(m, e)
        /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, l, m, bad>>

Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
\* Behaviours are deterministic: a trace and a position identify a state.
Where == <<t, l>>
=============================================================================
