------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* What the exported figures of a server must be, given what happened to   *)
(* it since it started.  h is the history, as far as it matters:           *)
(*   rpc  : name :> [n, lo, hi, d, D]: finished RPCs, how many of them     *)
(*          failed (between lo and hi: how a call that its caller gives up *)
(*          ends is open), and the milliseconds they took (between d and D)*)
(*   mat  : function name :> [lo, hi]: matches its streams delivered       *)
(*   call : kind of call :> [n, lo, hi]: processed calls, updates made     *)
(*   open : watch :> ids not answered yet                                  *)
(* and x is what the server says:                                          *)
(*   [rpc, err, dur : name :> number, mat : function name :> number,       *)
(*    cnt, sum : kind :> number, open : number]                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

HZero == [rpc |-> <<>>, mat |-> <<>>, call |-> <<>>, open |-> <<>>]

At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Set1(f, x, v) == (x :> v) @@ f
If(c, rule, info) == IF c THEN {<<rule, info>>} ELSE {}

R0 == [n |-> 0, lo |-> 0, hi |-> 0, d |-> 0, D |-> 0]
M0 == [lo |-> 0, hi |-> 0]
C0 == [n |-> 0, lo |-> 0, hi |-> 0]

\* res: "ok", "err", or "maybe"
HRpc(h, name, res, d, D) ==
  LET r == At(h.rpc, name, R0)
  IN [h EXCEPT !.rpc = Set1(@, name, [n |-> r.n + 1, lo |-> r.lo + (IF res = "err" THEN 1 ELSE 0), hi |-> r.hi + (IF res = "ok" THEN 0 ELSE 1),
                                     d |-> r.d + d, D |-> r.D + D])]
HTook(h, name, d) == [h EXCEPT !.rpc = Set1(@, name, [At(@, name, R0) EXCEPT !.d = @ + d])]
HMatches(h, fn, lo, hi) ==
  LET r == At(h.mat, fn, M0)
  IN [h EXCEPT !.mat = Set1(@, fn, [lo |-> r.lo + lo, hi |-> r.hi + hi])]
\* A call with req ids, well of them well-formed, is processed iff it is not refused as a whole.
\* sure: no update of it can have failed.
Processed(req, most) == req >= 1 /\ req <= most
HCall(h, kind, req, well, most, sure) ==
  IF ~Processed(req, most) THEN h
  ELSE LET r == At(h.call, kind, C0)
       IN [h EXCEPT !.call = Set1(@, kind, [n |-> r.n + 1, lo |-> r.lo + (IF sure THEN well ELSE 0), hi |-> r.hi + well])]
HOpen(h, w, n) == [h EXCEPT !.open = Set1(@, w, n)]
HAnswer(h, w) == [h EXCEPT !.open[w] = @ - 1]
HClose(h, w) == [h EXCEPT !.open[w] = 0]

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
Open(h) == Total(h.open, DOMAIN h.open)

\* calm: nothing is in progress except the open watches.
MetViol(h, x) ==
  UNION {If(At(x.rpc, k, 0) # At(h.rpc, k, R0).n, "rpc-count", <<k, At(x.rpc, k, 0), At(h.rpc, k, R0)>>) : k \in DOMAIN h.rpc \cup DOMAIN x.rpc}
  \cup UNION {LET r == At(h.rpc, k, R0) IN If(At(x.err, k, 0) < r.lo \/ At(x.err, k, 0) > r.hi, "rpc-errors", <<k, At(x.err, k, 0), r>>)
              : k \in DOMAIN h.rpc \cup DOMAIN x.err}
  \cup UNION {LET r == At(h.rpc, k, R0) IN If(At(x.dur, k, 0) < r.d \/ At(x.dur, k, 0) > r.D, "rpc-duration", <<k, At(x.dur, k, 0), r>>)
              : k \in DOMAIN h.rpc \cup DOMAIN x.dur}
  \cup UNION {LET r == At(h.mat, k, M0) IN If(At(x.mat, k, 0) < r.lo \/ At(x.mat, k, 0) > r.hi, "matches", <<k, At(x.mat, k, 0), r>>)
              : k \in DOMAIN h.mat \cup DOMAIN x.mat}
  \cup UNION {LET r == At(h.call, k, C0) IN If(At(x.cnt, k, 0) # r.n, "samples", <<k, At(x.cnt, k, 0), r>>) : k \in DOMAIN h.call \cup DOMAIN x.cnt}
  \cup UNION {LET r == At(h.call, k, C0) IN If(At(x.sum, k, 0) < r.lo \/ At(x.sum, k, 0) > r.hi, "updates", <<k, At(x.sum, k, 0), r>>)
              : k \in DOMAIN h.call \cup DOMAIN x.sum}
  \cup If(x.open # Open(h), "open-watches", <<x.open, Open(h)>>)
=============================================================================
