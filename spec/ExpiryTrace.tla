----------------------------- MODULE ExpiryTrace -----------------------------
(***************************************************************************)
(* Validates the lives of real tickets against Expiry.  Events:            *)
(*   xcfg   [ttl, add, cycle]                                              *)
(*   xt     [k, c, x, a, b]: ticket k entered the log                      *)
(*   xs     [ks, on, a, b]: changes of state;  xa [ks, a, b]: assignments  *)
(*   xlook  [a, b, got]: what was offered;  xwatch [k, a, b, got]          *)
(*   xgauge [a, b, tix, inact, asg, extra]: what the server says it holds  *)
(*          (extra: tickets there may be besides)                          *)
(*   xsweep [a, b, n]: how many maintenance cycles the server has finished *)
(***************************************************************************)
EXTENDS Expiry, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, tk, sw, bad
\* When the cycle after the next one ends, all of it lay after this moment.
\* sw: the figures read, latest first; of equal figures only the latest matters.
Sweep(e) == IF e.e # "xsweep" THEN sw
            ELSE <<e>> \o SelectSeq(sw, LAMBDA y : y.n < e.n /\ y.n >= e.n - 8)
Known(at) == LET S == {sw[k].a : k \in {x \in DOMAIN sw : sw[x].n + 2 <= sw[1].n}}
             IN IF sw = <<>> \/ S = {} THEN 0 - Never ELSE IF sw[1].b > at THEN 0 - Never ELSE CHOOSE x \in S : \A y \in S : x >= y
F(at) == [ttl |-> Traces[t][1].ttl, add |-> Traces[t][1].add, cycle |-> Traces[t][1].cycle, swept |-> Known(at)]
Set(s) == {s[k] : k \in DOMAIN s}

Step(e) ==
  CASE e.e = "xt" -> Append(tk, [c |-> e.c, x |-> e.x, h |-> <<[on |-> FALSE, a |-> e.a, b |-> e.b]>>, s |-> <<>>])
    [] e.e = "xs" -> LET S == Set(e.ks) IN
                     [k \in DOMAIN tk |-> IF k \in S THEN [tk[k] EXCEPT !.h = Append(@, [on |-> e.on, a |-> e.a, b |-> e.b])] ELSE tk[k]]
    [] e.e = "xa" -> LET S == Set(e.ks) IN
                     [k \in DOMAIN tk |-> IF k \in S THEN [tk[k] EXCEPT !.s = Append(@, [a |-> e.a, b |-> e.b])] ELSE tk[k]]
    [] OTHER -> tk

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
N(S) == Cardinality(S)
Within(e, v, may, must, more, rule) ==
  V(v <= N(may) + more, rule \o "-kept", <<e, N(may)>>) \cup V(v >= N(must), rule \o "-dropped", <<e, N(must)>>)
Viol(e) ==
  LET f == F(IF e.e \in {"xlook", "xwatch"} THEN e.a ELSE 0 - Never) IN
  CASE e.e = "xlook" ->
         LET got == Set(e.got) IN
         V(N(got) = Len(e.got), "offered-twice", e)
         \cup {<<"offered-past-its-time", <<k, tk[k], [a |-> e.a, b |-> e.b]>>>> : k \in {x \in got : x = 0 \/ ~MayOffer(f, tk[x], e.a, e.b)}}
         \cup {<<"gone-before-its-time", <<k, tk[k], [a |-> e.a, b |-> e.b]>>>> : k \in {x \in DOMAIN tk \ got : MustOffer(f, tk[x], e.a, e.b)}}
    [] e.e = "xwatch" ->
         V(e.got => MayAnswer(f, tk[e.k], e.a, e.b), "assignment-past-its-time", <<e, tk[e.k]>>)
         \cup V(MustAnswer(f, tk[e.k], e.a, e.b, 1000) => e.got, "assignment-gone-before-its-time", <<e, tk[e.k]>>)
    [] e.e = "xgauge" ->
         \* the figures are those of the last cycle, and include what that dropped
         LET a == e.a - 2 * f.cycle
             D == DOMAIN tk
         IN Within(e, e.tix,   {k \in D : MayHold(f, tk[k], a, e.b)}, {k \in D : MustHold(f, tk[k], a, e.b)}, e.extra, "tickets")
            \cup Within(e, e.inact, {k \in D : MayMark(f, tk[k], a, e.b)}, {k \in D : MustMark(f, tk[k], a, e.b)}, e.extra, "marks")
            \cup Within(e, e.asg,   {k \in D : MayAsg(f, tk[k], a, e.b)},  {k \in D : MustAsg(f, tk[k], a, e.b)}, 0, "assignments")
    [] e.e = "died" -> {<<"server-died", e>>}
    [] e.e = "stuck" -> {<<"not-applied", e>>}
    [] e.e = "unserviceable" -> {<<"unable-to-serve", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ tk = <<>> /\ sw = <<>> /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
              /\ tk' = Step(e) /\ sw' = Sweep(e)
Spec == Init /\ [][Next]_<<t, l, tk, sw, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
