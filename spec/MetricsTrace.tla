---------------------------- MODULE MetricsTrace -----------------------------
(***************************************************************************)
(* Validates the figures that the real server exports against Metrics.     *)
(* Besides the events of OMTrace:                                          *)
(*   rpc [m, res, d]: an RPC of that name has ended, seen by its caller,   *)
(*          in at most d ms                                                *)
(*   scrape [rpc, err, dur, mat, cnt, sum : lists of [k, n]; open]         *)
(***************************************************************************)
EXTENDS Metrics, Sequences, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, s, bad
\* h: the history; most, down: as configured, and whether the storage refuses updates now;
\* inv: invocation :> [at, loose: names of functions that are cut off, left: name :> sent, not received,
\* fn: match :> name]

Begin == [h |-> HZero, most |-> 500, down |-> FALSE, inv |-> <<>>]

Well(ups) == Cardinality({k \in DOMAIN ups : ups[k].form})
Limit == 3500

Send(st, e) ==
  LET i == st.inv[e.v]
      isM == e.k # ""
      loose == e.f \in i.loose
  IN [st EXCEPT !.h = HMatches(@, e.f, IF isM /\ ~loose THEN 1 ELSE 0, 1),
                !.inv[e.v].fn = Set1(@, e.k, e.f),
                !.inv[e.v].left = Set1(@, e.f, At(@, e.f, 0) + (IF isM THEN 1 ELSE 0))]
Receive(st, e) ==
  LET i == st.inv[e.v]
  IN IF e.k \notin DOMAIN i.fn \/ e.k = "" THEN st
     ELSE LET n == i.fn[e.k]
          IN [st EXCEPT !.h = HMatches(@, n, IF n \in i.loose THEN 1 ELSE 0, 0), !.inv[e.v].left[n] = @ - 1]
\* The functions may have been cut off: then what was not received may not have arrived.
Late(st, v, ms) ==
  LET i == st.inv[v]
      Loosen(h) == [h EXCEPT !.mat = [n \in DOMAIN @ |-> IF n \in DOMAIN i.left \ i.loose THEN [@[n] EXCEPT !.lo = @ - i.left[n]] ELSE @[n]]]
  IN IF ms - i.at < Limit THEN st ELSE [st EXCEPT !.h = Loosen(@), !.inv[v].loose = @ \cup DOMAIN i.left]

Step(e) ==
  CASE e.e = "start" -> [Begin EXCEPT !.most = e.max]
    [] e.e = "fault" -> [s EXCEPT !.down = e.down]
    [] e.e = "call" -> IF e.kind = "create" THEN s ELSE [s EXCEPT !.h = HCall(@, e.kind, Len(e.ups), Well(e.ups), s.most, ~s.down)]
    [] e.e = "rpc" -> [s EXCEPT !.h = HRpc(@, e.m, e.res, 0, e.d)]
    [] e.e = "inv" -> [s EXCEPT !.inv = Set1(@, e.v, [at |-> e.ms, loose |-> {e.fns[k].m : k \in {j \in DOMAIN e.fns : e.fns[j].kind \notin {"ok", "err", "dead"}}},
                                                      left |-> <<>>, fn |-> <<>>])]
    [] e.e = "msend" -> Send(s, e)
    [] e.e = "mrecv" -> Receive(s, e)
    [] e.e = "invret" -> Late(s, e.v, e.ms)
    [] e.e = "watch" -> [s EXCEPT !.h = HOpen(@, e.w, Len(e.ids))]
    [] e.e = "wmsg" -> [s EXCEPT !.h = HAnswer(@, e.w)]
    [] e.e = "wend" -> [s EXCEPT !.h = IF e.how = "done" /\ e.expired /\ s.h.open[e.w] > 0 THEN HTook(HClose(@, e.w), "WatchAssignments", 500) ELSE HClose(@, e.w)]
    [] OTHER -> s

Fn(q) == [k \in {q[j].k : j \in DOMAIN q} |-> q[CHOOSE j \in DOMAIN q : q[j].k = k].n]
Says(e) == [rpc |-> Fn(e.rpc), err |-> Fn(e.err), dur |-> Fn(e.dur), mat |-> Fn(e.mat), cnt |-> Fn(e.cnt), sum |-> Fn(e.sum), open |-> e.open]
Viol(e) ==
  CASE e.e = "scrape" -> MetViol(s.h, Says(e))
    [] e.e = "died" -> {<<"server-died", e>>}
    [] e.e = "stuck" -> {<<"not-applied", e>>}
    [] e.e = "unserviceable" -> {<<"unable-to-serve", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ s = Begin /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
              /\ s' = Step(e)
Spec == Init /\ [][Next]_<<t, l, s, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
