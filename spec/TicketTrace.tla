----------------------------- MODULE TicketTrace -----------------------------
(***************************************************************************)
(* Validates created tickets.  Event "made": what was submitted, and what  *)
(* became of it in one place (the log, or the pool of a function):         *)
(*   sub: [content, c, e], c and e = [has, at]; got: [content, c, e, id]   *)
(*   before, after: the clock around the call; ttl; id: the returned id    *)
(***************************************************************************)
EXTENDS TicketTimes, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
Viol(e) ==
  CASE e.e = "made" ->
         V(e.got.content = e.sub.content, "content-changed", e)
         \cup V(e.where = "log" \/ e.got.id = e.id, "foreign-id", e)
         \cup V(e.where = "pool" \/ e.got.id = "", "foreign-id-stored", e)
         \cup V(e.got.c.has /\ Created(e.sub.c, e.got.c.at, e.before, e.after), "creation-time", e)
         \cup V(e.got.e.has /\ e.got.e.at = Expires(e.sub.e, e.got.c.at, e.ttl), "expiration-time", e)
    [] e.e = "notmade" -> {<<"not-created", e>>}
    [] e.e = "died" -> {<<"server-died", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(Traces[t][l + 1])}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
