------------------------------ MODULE BurstCases ------------------------------
(* The ways in which updates of one ticket can meet in a batch of the        *)
(* outgoing queue: every sequence of up to Longest calls, each of which          *)
(* activates, deactivates or assigns it, once or twice in the same call.     *)
(* Written to the file OUT for the harness, with what the ticket is          *)
(* afterwards (CacheOps), if they are applied in this order.                 *)
EXTENDS CacheOps, Json, IOUtils, SequencesExt
CONSTANT Longest
VARIABLE done
Acts == {"a", "d", "A", "D", "s", "t", "S"}    \* capital: twice in one call; s, t: assignments
State == {"a", "d"}
Cases == UNION {[1..n -> State] : n \in 1..Longest} \cup UNION {[1..n -> Acts] : n \in 1..2}
         \cup {s \in [1..3 -> Acts] : s[1] = s[3] /\ s[1] # s[2]}
\* active at the end, by the design: the log is applied entry by entry
Entry(x) == [id |-> "", key |-> "k", val |-> "", cmd |-> IF x \in {"a", "A"} THEN "activate" ELSE IF x \in {"d", "D"} THEN "deactivate" ELSE "assign"]
RECURSIVE Hist(_, _)
Hist(s, n) == IF n = 0 THEN <<[at |-> 0, on |-> FALSE]>> ELSE IF Entry(s[n]).cmd = "assign" THEN Hist(s, n - 1) ELSE Hist(s, n - 1) \o Change(Entry(s[n]), n)
On(s) == LET h == Hist(s, Len(s)) IN h[Len(h)].on
All == SetToSeq({[ops |-> c, on |-> On(c)] : c \in Cases})
Init == done = FALSE
Next == ~done /\ done' = JsonSerialize(IOEnv.OUT, All)
Spec == Init /\ [][Next]_done
Fine == [][done']_done
=============================================================================
