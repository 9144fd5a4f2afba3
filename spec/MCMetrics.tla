------------------------------ MODULE MCMetrics ------------------------------
(***************************************************************************)
(* The server's bookkeeping: update calls, watches and function streams    *)
(* that run side by side, each recording its figures where the handlers    *)
(* do: a call its sample when its updates are done, a watch +ids when it   *)
(* begins, -1 with each answer and -(what is left) when it is cut short, a *)
(* stream its matches when it ends, however it ends, and every RPC its end.*)
(*                                                                         *)
(* Broken: "leakcancel", "leaktimeout": what is left is not subtracted;    *)
(* "allcancel": all ids are subtracted, answered ones too; "onok": matches *)
(* are recorded only if the stream ends well; "plusone": the end counts as *)
(* a match; "lastname": all streams of an invocation are recorded under    *)
(* one name; "refused": calls refused as a whole leave a sample;           *)
(* "asked": the sample is the number of ids given; "failedonly": failed    *)
(* RPCs are not counted as finished; "noerr": failures are not counted;    *)
(* "swap": deactivations are recorded as activations.                      *)
(***************************************************************************)
EXTENDS Metrics, Sequences

CONSTANTS Calls, Watches, Streams, Most, Ids, Matches, Names, Broken

VARIABLES h, x, cs, ws, ss, inv
vars == <<h, x, cs, ws, ss, inv>>
\* cs: calls left; ws: watch :> [st, n, left]; ss: stream :> [st, f, got]; inv: "no", "open", "bad", "done"

XZero == [rpc |-> <<>>, err |-> <<>>, dur |-> <<>>, mat |-> <<>>, cnt |-> <<>>, sum |-> <<>>, open |-> 0]
Plus(f, k, v) == Set1(f, k, At(f, k, 0) + v)

Init == /\ h = HZero /\ x = XZero /\ cs = Calls
        /\ ws = [w \in 1..Watches |-> [st |-> "new", n |-> 0, left |-> 0]]
        /\ ss = [q \in 1..Streams |-> [st |-> "new", f |-> "", got |-> 0]]
        /\ inv = "no"

Rpc(y, name, ok) ==
  [y EXCEPT !.rpc = IF Broken = "failedonly" /\ ~ok THEN @ ELSE Plus(@, name, 1),
            !.err = IF ok \/ Broken = "noerr" THEN @ ELSE Plus(@, name, 1)]
Res(ok) == IF ok THEN "ok" ELSE "err"

\* A call with n ids, k of them well-formed.
Call(kind, n, k) ==
  /\ cs > 0 /\ cs' = cs - 1 /\ k <= n
  /\ h' = HRpc(HCall(h, kind, n, k, Most, TRUE), kind, Res(Processed(n, Most)), 0, 0)
  /\ LET rec == Processed(n, Most) \/ Broken = "refused"
         as == IF Broken = "swap" /\ kind = "deact" THEN "act" ELSE kind
         y == Rpc(x, kind, Processed(n, Most))
     IN x' = IF rec THEN [y EXCEPT !.cnt = Plus(@, as, 1), !.sum = Plus(@, as, IF Broken = "asked" THEN n ELSE k)] ELSE y
  /\ UNCHANGED <<ws, ss, inv>>

WBegin(w, n) ==
  /\ ws[w].st = "new" /\ ws' = [ws EXCEPT ![w] = [st |-> "open", n |-> n, left |-> n]]
  /\ h' = HOpen(h, w, n) /\ x' = [x EXCEPT !.open = @ + n] /\ UNCHANGED <<cs, ss, inv>>
WAnswer(w) ==
  /\ ws[w].st = "open" /\ ws[w].left > 0 /\ ws' = [ws EXCEPT ![w].left = @ - 1]
  /\ h' = HAnswer(h, w) /\ x' = [x EXCEPT !.open = @ - 1] /\ UNCHANGED <<cs, ss, inv>>
WEnd(w, how) ==
  /\ ws[w].st = "open" /\ (how = "all") = (ws[w].left = 0)
  /\ ws' = [ws EXCEPT ![w].st = "done", ![w].left = 0]
  /\ h' = HRpc(HClose(h, w), "watch", Res(how # "cancel"), 0, 0)
  /\ LET d == CASE how = "all" -> 0
                [] how = "cancel" /\ Broken = "leakcancel" -> 0
                [] how = "timeout" /\ Broken = "leaktimeout" -> 0
                [] how = "cancel" /\ Broken = "allcancel" -> ws[w].n
                [] OTHER -> ws[w].left
     IN x' = Rpc([x EXCEPT !.open = @ - d], "watch", how # "cancel")
  /\ UNCHANGED <<cs, ss, inv>>

Invoke(fs) ==
  /\ inv = "no" /\ inv' = "open"
  /\ ss' = [q \in DOMAIN ss |-> [st |-> "open", f |-> fs[q], got |-> 0]]
  /\ UNCHANGED <<h, x, cs, ws>>
SMatch(q) ==
  /\ ss[q].st = "open" /\ ss[q].got < Matches /\ ss' = [ss EXCEPT ![q].got = @ + 1] /\ UNCHANGED <<h, x, cs, ws, inv>>
SEnd(q, ok) ==
  /\ ss[q].st = "open" /\ ss' = [ss EXCEPT ![q].st = "done"]
  /\ h' = HMatches(h, ss[q].f, ss[q].got, ss[q].got)
  /\ LET as == IF Broken = "lastname" THEN ss[Streams].f ELSE ss[q].f
         k == ss[q].got + (IF Broken = "plusone" /\ ok THEN 1 ELSE 0)
     IN x' = IF ~ok /\ Broken = "onok" THEN x ELSE [x EXCEPT !.mat = Plus(@, as, k)]
  /\ inv' = IF ok THEN inv ELSE "bad"
  /\ UNCHANGED <<cs, ws>>
IEnd ==
  /\ inv \in {"open", "bad"} /\ \A q \in DOMAIN ss : ss[q].st = "done"
  /\ inv' = "done" /\ h' = HRpc(h, "invoke", Res(inv = "open"), 0, 0) /\ x' = Rpc(x, "invoke", inv = "open")
  /\ UNCHANGED <<cs, ws, ss>>

Next == \/ \E kind \in {"act", "deact", "assign"}, n, k \in 0..(Most + 1) : Call(kind, n, k)
        \/ \E w \in DOMAIN ws : (\E n \in 0..Ids : WBegin(w, n)) \/ WAnswer(w) \/ (\E how \in {"all", "cancel", "timeout"} : WEnd(w, how))
        \/ \E fs \in [1..Streams -> Names] : Invoke(fs)
        \/ \E q \in DOMAIN ss : SMatch(q) \/ (\E ok \in BOOLEAN : SEnd(q, ok))
        \/ IEnd
Spec == Init /\ [][Next]_vars

\* The open streams' matches are recorded when they end, so there is nothing to compare before.
Right == MetViol(h, x) = {}
NoneLeft == (\A w \in DOMAIN ws : ws[w].st # "open") => x.open = 0
Never == x.open >= 0
=============================================================================
