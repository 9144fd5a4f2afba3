---------------------------- MODULE GatewayTrace -----------------------------
(***************************************************************************)
(* Validates what came back of calls by HTTP against Gateway.  Events:     *)
(*   http [m, verb, path, status, code, results, form]: what was asked, and*)
(*        what came back; form: "" or what is wrong with the JSON          *)
(*   pair [what, g, h]: the outcome of the same call by gRPC and by HTTP   *)
(*   prompt [what, n, want]: results that depend on earlier ones received  *)
(*   raw [m, body, code, want, stored]: a body as given, the codes that it *)
(*        may lead to, and the updates it made                             *)
(***************************************************************************)
EXTENDS Gateway, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
Viol(e) ==
  CASE e.e = "http" ->
         V(e.verb = Route[e.m].verb /\ e.path = Route[e.m].path, "harness-route", e)
         \cup V(e.form = "", "http-form", e)
         \cup V(e.form # "" \/ (e.code \in DOMAIN HttpOf /\ Legal(e.m, e.status, e.code, e.results)), "http-status", e)
    [] e.e = "pair" -> V(e.g = e.h, "http-differs", e)
    [] e.e = "prompt" -> V(e.n = e.want, "http-results-kept-back", e)
    [] e.e = "raw" -> V(\E k \in DOMAIN e.want : e.want[k] = e.code, "http-answer", e)
                      \cup V(e.code = "OK" \/ e.stored = 0, "http-refused-but-done", e)
                      \cup V(e.code # "OK" \/ e.m \notin {"ActivateTickets", "DeactivateTickets"} \/ e.stored = 1, "http-not-done", e)
    [] e.e = "died" -> {<<"server-died", e>>}
    [] e.e = "stuck" -> {<<"not-applied", e>>}
    [] e.e = "unserviceable" -> {<<"unable-to-serve", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(Traces[t][l + 1])}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
