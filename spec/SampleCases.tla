----------------------------- MODULE SampleCases -----------------------------
(* Profiles for the sample functions, by the sizes of their pools: all sizes  *)
(* around which the number of complete matches changes.  Written to OUT.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Solo == {[fn |-> "solo", sizes |-> s] : s \in [{"a", "b", "competitive"} -> 0..3]}
        \cup {[fn |-> "solo", sizes |-> [x \in {"one"} |-> k]] : k \in {0, 1, 2, 3, 1000, 1001}}
Team == {[fn |-> "team", sizes |-> ("tank" :> a @@ "healer" :> b @@ "dps" :> c @@ "extra" :> d)] :
           a \in {0, 1, 2, 3, 4, 7}, b \in {0, 1, 2, 3, 5}, c \in {0, 2, 5, 6, 7, 11, 12, 13, 18}, d \in {0, 9}}
BR   == {[fn |-> "br", sizes |-> ("competitive" :> a @@ "all" :> b)] : a \in {0, 1, 99, 100, 101, 199, 200, 201, 250, 1000}, b \in {0, 100, 150}}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, SetToSeq(Solo) \o SetToSeq(Team) \o SetToSeq(BR))
Spec == Init /\ [][Next]_done
Fine == [][done']_done
=============================================================================
