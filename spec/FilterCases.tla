----------------------------- MODULE FilterCases -----------------------------
(***************************************************************************)
(* The tickets and pools to try, enumerated from the vocabulary of         *)
(* Filters: every ticket over a small domain, every single filter over it, *)
(* and combinations.  Written to the file OUT, for the harness.            *)
(***************************************************************************)
EXTENDS Filters, TLC, Json, IOUtils, SequencesExt

D == {-2, -1, 0, 1, 2, NaN}
T == 0..4

Tickets == { [tags |-> SetToSeq(g), strs |-> s, dbls |-> d, ct |-> c] :
               g \in SUBSET {"t", "T"},
               s \in {<<>>, <<<<"s", "">>>>, <<<<"s", "a">>>>, <<<<"s", "A">>, <<"q", "a">>>>},
               d \in {<<>>} \cup {<<<<"x", v>>>> : v \in D} \cup {<<<<"x", 0>>, <<"y", 1>>>>},
               c \in T }

NoTime == [on |-> FALSE, start |-> None, end |-> None, bounds |-> 0]
Pool(g, s, d, c) == [tags |-> g, strs |-> s, dbls |-> d, ct |-> c]
Dbl(a, lo, hi, b) == [arg |-> a, min |-> lo, max |-> hi, bounds |-> b]

Doubles == {Pool(<<>>, <<>>, <<Dbl("x", lo, hi, b)>>, NoTime) : lo \in D, hi \in D, b \in 0..3}
Times   == {Pool(<<>>, <<>>, <<>>, [on |-> TRUE, start |-> a, end |-> z, bounds |-> b]) :
              a \in T \cup {None}, z \in T \cup {None}, b \in 0..3}
           \cup {Pool(<<>>, <<>>, <<>>, [on |-> TRUE, start |-> a, end |-> z, bounds |-> b]) :
              a \in {None, 1, Invalid}, z \in {Invalid, 3}, b \in {0, 3}}
Strings == {Pool(<<>>, s, <<>>, NoTime) : s \in {<<>>, <<<<"s", "">>>>, <<<<"s", "a">>>>, <<<<"s", "A">>>>, <<<<"S", "a">>>>,
              <<<<"q", "a">>>>, <<<<"q", "">>>>, <<<<"s", "A">>, <<"q", "a">>>>, <<<<"s", "a">>, <<"s", "A">>>>}}
Tagged  == {Pool(g, <<>>, <<>>, NoTime) : g \in {<<"t">>, <<"T">>, <<"t", "T">>, <<"T", "T">>, <<"u">>, <<"t", "u">>}}
Mixed   == {Pool(g, s, d, c) :
              g \in {<<>>, <<"t">>, <<"T", "t">>}, s \in {<<>>, <<<<"s", "a">>>>, <<<<"s", "">>>>},
              d \in {<<Dbl("x", -1, 1, 0)>>, <<Dbl("x", -2, 0, 2), Dbl("x", -1, 2, 1)>>, <<Dbl("y", -2, 2, 3)>>, <<Dbl("z", -2, 2, 0)>>},
              c \in {NoTime, [on |-> TRUE, start |-> 3, end |-> 1, bounds |-> 0], [on |-> TRUE, start |-> 1, end |-> 3, bounds |-> 3]}}

Cases == [tickets |-> SetToSeq(Tickets), pools |-> SetToSeq(Doubles \cup Times \cup Strings \cup Tagged \cup Mixed)]

\* Sanity of the specification itself, over all cases.
Laws ==
  /\ \A t \in Tickets : Meets(t, Pool(<<>>, <<>>, <<>>, NoTime))
  /\ \A t \in Tickets, p \in Mixed : Meets(t, p) <=>
        /\ Meets(t, Pool(p.tags, <<>>, <<>>, NoTime)) /\ Meets(t, Pool(<<>>, p.strs, <<>>, NoTime))
        /\ Meets(t, Pool(<<>>, <<>>, p.dbls, NoTime)) /\ Meets(t, Pool(<<>>, <<>>, <<>>, p.ct))
  /\ \A v, lo, hi \in D :
        /\ InRange(v, lo, hi, 3) <=> InRange(v, lo, hi, 1) /\ InRange(v, lo, hi, 2)
        /\ InRange(v, lo, hi, 0) <=> InRange(v, lo, hi, 3) \/ (v # NaN /\ lo # NaN /\ hi # NaN /\ lo <= hi /\ v \in {lo, hi})
        /\ ~InRange(NaN, lo, hi, 0)
  /\ \A t \in Tickets, p \in Times : Fillable(p) /\ p.ct.bounds = 3 /\ Meets(t, p) => Meets(t, [p EXCEPT !.ct.bounds = 0])

VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = (Laws /\ JsonSerialize(IOEnv.OUT, Cases)) /\ PrintT(<<"CASES", Cardinality(Tickets), Len(Cases.pools)>>)
Spec == Init /\ [][Next]_done
Fine == [][done']_done
=============================================================================
