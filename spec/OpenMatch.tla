----------------------------- MODULE OpenMatch ------------------------------
(***************************************************************************)
(* The design of Open Match core, one action per step that can interleave: *)
(* instances which queue updates, write them in batches to a shared log,   *)
(* read the log back and apply it one update at a time, take snapshots of  *)
(* the active tickets, run matchmaking functions, deactivate the tickets   *)
(* of the matches and stream the matches back.                             *)
(*                                                                         *)
(* Every step that is visible at a boundary hands its event to Monitor;    *)
(* the design is right if no event ever breaks a rule (NoRuleBroken), and  *)
(* calls, invocations and instances get on (Progress).                     *)
(*                                                                         *)
(* Variant names designs which were found in the code and turned out to be *)
(* wrong (see DESIGN.md); the MC*.cfg with a variant must fail.            *)
(***************************************************************************)
EXTENDS Monitor, SequencesExt

CONSTANTS Inst,          \* instances
          MaxTickets, MaxUpdates, MaxCallLen,   \* creations, state updating calls, ids per such call
          BatchSize, PollSize,
          MaxFaults,     \* refused writes and broken connections
          MaxKills,
          MaxInv, MaxMatches, \* invocations; matches per invocation
          Fns,           \* functions of an invocation, as [name |-> kind], kinds "ok" and "err"
          Wait,          \* configured to wait for deactivation before returning a match
          MayCancel,     \* the caller may cancel an invocation
          Variant

VARIABLES m, bad,
          calls,  \* call -> [i, ups (keys), cmd, enq (how many queued), res (results by position), st]
          q,      \* instance -> queued updates
          wr,     \* instance -> [st, ups, n, res]: the batch being collected or written
          cache,  \* instance -> [app, tix, inact, asg]
          inv,    \* invocation -> its state
          gor,    \* match -> the goroutine that handles it
          cnt     \* counters that bound the exploration

vars == <<m, bad, calls, q, wr, cache, inv, gor, cnt>>

Emit(e) == /\ bad' = {x[1] : x \in Viol(m, e)}
           /\ m' = Step(m, e)
RECURSIVE StepAll(_, _)
StepAll(mm, es) == IF es = <<>> THEN mm ELSE StepAll(Step(mm, Head(es)), Tail(es))
RECURSIVE ViolAll(_, _)
ViolAll(mm, es) == IF es = <<>> THEN {} ELSE {x[1] : x \in Viol(mm, Head(es))} \cup ViolAll(Step(mm, Head(es)), Tail(es))
EmitAll(es) == /\ bad' = ViolAll(m, es)
               /\ m' = StepAll(m, es)
Silent == UNCHANGED m /\ bad' = {}

Empty == [app |-> 0, tix |-> <<>>, inact |-> {}, asg |-> <<>>]
Idle  == [st |-> "collect", ups |-> <<>>, n |-> 0, res |-> <<>>]
Up(i) == m.inst[i].up
ID(n) == ToString(n)

RECURSIVE StartAll(_, _)
StartAll(mm, S) == IF S = {} THEN mm
                   ELSE LET i == CHOOSE x \in S : TRUE
                        IN StartAll(Step(mm, [e |-> "start", i |-> i, max |-> 100, wait |-> Wait, store |-> "redis"]), S \ {i})

Init == /\ m = StartAll(InitM, Inst)
        /\ bad = {}
        /\ calls = <<>>
        /\ q = [i \in Inst |-> <<>>]
        /\ wr = [i \in Inst |-> Idle]
        /\ cache = [i \in Inst |-> Empty]
        /\ inv = <<>>
        /\ gor = <<>>
        /\ cnt = [tix |-> 0, ups |-> 0, faults |-> 0, kills |-> 0]

\* ------------------------------------------------------------------ calls
\* Tickets whose creator knows them.
Known0 == {m.log[n].id : n \in {k \in DOMAIN m.log : m.log[k].cmd = "ticket"}}
Given == {c.id : c \in {calls[k] : k \in {x \in DOMAIN calls : calls[x].cmd = "ticket" /\ calls[x].st = "done"}}} \ {""}

NewCall(i, cmd, keys) ==
  LET c == "c" \o ToString(Cardinality(DOMAIN calls) + 1)
      kind == CASE cmd = "ticket" -> "create" [] cmd = "activate" -> "act" [] cmd = "deactivate" -> "deact" [] OTHER -> "assign"
      val == IF cmd \in {"ticket", "assign"} THEN "v" \o c ELSE ""
      ups == IF cmd = "ticket" THEN <<[cmd |-> cmd, key |-> "", val |-> val, form |-> TRUE, tags |-> <<>>]>>
             ELSE [k \in DOMAIN keys |-> [cmd |-> cmd, key |-> keys[k], val |-> val, form |-> TRUE, tags |-> <<>>]]
  IN /\ Up(i)
     /\ calls' = Put(calls, c, [i |-> i, cmd |-> cmd, val |-> val, keys |-> [k \in DOMAIN ups |-> ups[k].key],
                                enq |-> 0, res |-> <<>>, st |-> "run", id |-> ""])
     /\ Emit([e |-> "call", c |-> c, i |-> i, kind |-> kind, ups |-> ups])
     /\ UNCHANGED <<q, wr, cache, inv, gor>>

CallCreate == \E i \in Inst :
  /\ cnt.tix < MaxTickets
  /\ NewCall(i, "ticket", <<"">>)
  /\ cnt' = [cnt EXCEPT !.tix = @ + 1]

CallState == \E i \in Inst, cmd \in {"activate", "deactivate", "assign"}, n \in 1..MaxCallLen :
  /\ cnt.ups < MaxUpdates
  /\ "assign" \in Variant \/ cmd # "assign"
  /\ \E keys \in [1..n -> Given] :
       /\ \A a, b \in 1..n : a # b => keys[a] # keys[b]
       \* two open calls with the same update could not be told apart by the monitor
       /\ \A c \in DOMAIN calls : calls[c].st = "run" /\ calls[c].cmd = cmd => SeqSet(calls[c].keys) \cap SeqSet(keys) = {}
       /\ NewCall(i, cmd, keys)
  /\ cnt' = [cnt EXCEPT !.ups = @ + 1]

\* The handler puts its updates into the instance's queue one after the other.
Enqueue == \E c \in DOMAIN calls :
  LET r == calls[c] IN
  /\ Up(r.i) /\ r.st = "run" /\ r.enq < Len(r.keys)
  /\ q' = [q EXCEPT ![r.i] = Append(@, [cmd |-> r.cmd, key |-> r.keys[r.enq + 1], val |-> r.val, from |-> c])]
  /\ calls' = [calls EXCEPT ![c].enq = @ + 1]
  /\ Silent /\ UNCHANGED <<wr, cache, inv, gor, cnt>>

\* ... and answers when it has all results.
Return == \E c \in DOMAIN calls :
  LET r == calls[c]
      bads == {k \in DOMAIN r.res : r.res[k] = "err"}
      ok == bads = {}
  IN
  /\ Up(r.i) /\ r.st = "run" /\ r.enq = Len(r.keys) /\ Len(r.res) = Len(r.keys)
  /\ calls' = [calls EXCEPT ![c].st = "done", ![c].id = IF r.cmd = "ticket" /\ ok THEN r.res[1] ELSE ""]
  /\ Emit([e |-> "ret", c |-> c, ok |-> ok, code |-> IF ok THEN "OK" ELSE "InvalidArgument",
           id |-> IF r.cmd = "ticket" /\ ok THEN r.res[1] ELSE "",
           bad |-> IF r.cmd \in {"activate", "deactivate"} THEN SetToSeq({r.keys[k] : k \in bads}) ELSE <<>>])
  /\ UNCHANGED <<q, wr, cache, inv, gor, cnt>>

\* ------------------------------------------------------------------ writing
Take == \E i \in Inst :
  /\ Up(i) /\ wr[i].st = "collect" /\ q[i] # <<>> /\ Len(wr[i].ups) < BatchSize
  /\ wr' = [wr EXCEPT ![i].ups = Append(@, Head(q[i]))]
  /\ q' = [q EXCEPT ![i] = Tail(@)]
  /\ Silent /\ UNCHANGED <<calls, cache, inv, gor, cnt>>

\* full, or timed out
Begin == \E i \in Inst :
  /\ Up(i) /\ wr[i].st = "collect" /\ wr[i].ups # <<>>
  /\ wr' = [wr EXCEPT ![i].st = "write"]
  /\ Silent /\ UNCHANGED <<q, calls, cache, inv, gor, cnt>>

Write1 == \E i \in Inst :
  LET b == wr[i]
      u == b.ups[b.n + 1]
      n == Len(m.log) + 1
  IN
  /\ Up(i) /\ b.st = "write" /\ b.n < Len(b.ups)
  /\ \/ /\ Emit([e |-> "add", i |-> i, idx |-> n, id |-> ID(n), cmd |-> u.cmd, key |-> u.key, val |-> u.val, tags |-> <<>>])
        /\ wr' = [wr EXCEPT ![i].n = @ + 1, ![i].res = Append(@, ID(n))]
        /\ UNCHANGED cnt
     \/ \* the storage refuses this one
        /\ cnt.faults < MaxFaults
        /\ cnt' = [cnt EXCEPT !.faults = @ + 1]
        /\ Emit([e |-> "addfail", i |-> i, cmd |-> u.cmd, key |-> u.key, val |-> u.val])
        /\ wr' = [wr EXCEPT ![i].n = @ + 1, ![i].res = Append(@, "err")]
     \/ \* the connection breaks: nothing further is written, and replies from position k on do not arrive
        \E k \in 0..b.n :
        /\ cnt.faults < MaxFaults
        /\ cnt' = [cnt EXCEPT !.faults = @ + 1]
        /\ Emit([e |-> "lost", i |-> i, ns |-> [x \in DOMAIN m.log |-> x]])
        /\ wr' = [wr EXCEPT ![i].n = Len(b.ups),
                            ![i].res = [x \in DOMAIN b.ups |-> IF x <= k THEN b.res[x] ELSE "err"]]
  /\ UNCHANGED <<q, calls, cache, inv, gor>>

\* The results go back to where the updates came from.
RECURSIVE Deliver(_, _, _)
Deliver(f, ups, res) ==
  IF ups = <<>> THEN f
  ELSE LET c == Head(ups).from
       IN Deliver(IF c \in DOMAIN f THEN [f EXCEPT ![c].res = Append(@, Head(res))] ELSE f, Tail(ups), Tail(res))

Replies == \E i \in Inst :
  LET b == wr[i]
      \* wrong: after an error, all further results of the batch are those of the wrong update
      res == IF "shifted" \in Variant /\ \E k \in DOMAIN b.res : b.res[k] = "err"
             THEN [k \in DOMAIN b.res |-> IF k = 1 THEN "err" ELSE b.res[k - 1]] ELSE b.res
  IN
  /\ Up(i) /\ b.st = "write" /\ b.n = Len(b.ups)
  /\ calls' = Deliver(calls, b.ups, res)
  /\ gor' = Deliver(gor, b.ups, res)
  /\ wr' = [wr EXCEPT ![i] = Idle]
  /\ Silent /\ UNCHANGED <<q, cache, inv, cnt>>

\* ------------------------------------------------------------------ reading and applying
Poll == \E i \in Inst, n \in 1..PollSize :
  LET r == m.inst[i].recv IN
  /\ Up(i) /\ r + n <= Len(m.log)
  /\ r = cache[i].app                    \* the buffer has been used up
  /\ Emit([e |-> "read", i |-> i, from |-> r + 1, upto |-> r + n])
  /\ UNCHANGED <<calls, q, wr, cache, inv, gor, cnt>>

ApplyNext == \E i \in Inst :
  LET c == cache[i] IN
  /\ Up(i) /\ c.app < m.inst[i].recv
  /\ LET d == Apply([tix |-> c.tix, inact |-> c.inact, asg |-> c.asg], m.log[c.app + 1])
     IN cache' = [cache EXCEPT ![i] = [app |-> c.app + 1, tix |-> d.tix, inact |-> d.inact, asg |-> d.asg]]
  /\ Silent /\ UNCHANGED <<calls, q, wr, inv, gor, cnt>>

\* ------------------------------------------------------------------ crashes
Crash == \E i \in Inst :
  /\ Up(i) /\ cnt.kills < MaxKills
  /\ cnt' = [cnt EXCEPT !.kills = @ + 1]
  /\ EmitAll(<<[e |-> "kill", i |-> i], [e |-> "start", i |-> i, max |-> 100, wait |-> Wait, store |-> "redis"]>>)
  /\ q' = [q EXCEPT ![i] = <<>>]
  /\ wr' = [wr EXCEPT ![i] = Idle]
  /\ cache' = [cache EXCEPT ![i] = Empty]
  /\ calls' = [c \in DOMAIN calls |-> IF calls[c].i = i /\ calls[c].st = "run" THEN [calls[c] EXCEPT !.st = "gone"] ELSE calls[c]]
  /\ inv' = [v \in DOMAIN inv |-> IF inv[v].i = i THEN [inv[v] EXCEPT !.st = "gone"] ELSE inv[v]]
  /\ gor' = [g \in DOMAIN gor |-> IF gor[g].i = i THEN [gor[g] EXCEPT !.st = "gone"] ELSE gor[g]]

\* ------------------------------------------------------------------ invocations
\* st: snap (looking at tickets), run, drain (functions done), done
Invoke == \E i \in Inst :
  LET v == "i" \o ToString(Cardinality(DOMAIN inv) + 1) IN
  /\ Up(i) /\ Cardinality(DOMAIN inv) < MaxInv
  /\ inv' = Put(inv, v, [i |-> i, st |-> "snap", ina |-> cache[i].inact, had |-> DOMAIN cache[i].tix, seen |-> {}, offer |-> {},
                         cancelled |-> FALSE,
                         fn |-> [f \in DOMAIN Fns |-> [st |-> "start", n |-> 0, chan |-> <<>>]],
                         out |-> <<>>])
  /\ Emit([e |-> "inv", v |-> v, i |-> i, pools |-> <<[name |-> "p", tags |-> <<>>]>>,
           fns |-> SetToSeq({[m |-> f, kind |-> Fns[f]] : f \in DOMAIN Fns}), profile |-> TRUE])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

\* The snapshot looks at one ticket after the other while updates go on being applied.  Tickets that
\* were there at its beginning are certainly looked at, tickets added meanwhile may be.
Look == \E v \in DOMAIN inv : \E t \in DOMAIN cache[inv[v].i].tix :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.st = "snap" /\ t \notin x.seen
  /\ inv' = [inv EXCEPT ![v].seen = @ \cup {t},
                        ![v].offer = IF t \notin x.ina /\ ("norecheck" \in Variant \/ t \notin cache[x.i].inact) THEN @ \cup {t} ELSE @]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

PoolsOf(x) == <<[name |-> "p", tix |-> SetToSeq({[id |-> t, val |-> m.log[m.pos[t]].val] : t \in x.offer})]>>

Looked == \E v \in DOMAIN inv :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.st = "snap" /\ x.had \subseteq x.seen
  /\ inv' = [inv EXCEPT ![v].st = "run"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

\* A function gets the pools,
FnStart == \E v \in DOMAIN inv : \E f \in DOMAIN Fns :
  /\ Up(inv[v].i) /\ inv[v].st = "run" /\ inv[v].fn[f].st = "start"
  /\ inv' = [inv EXCEPT ![v].fn[f].st = "work"]
  /\ Emit([e |-> "pool", v |-> v, f |-> f, pools |-> PoolsOf(inv[v])])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

Total(x) == LET S == {f \in DOMAIN Fns : TRUE} IN
            IF S = {} THEN 0 ELSE LET RECURSIVE Sum(_) 
                                      Sum(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE g \in T : TRUE IN x.fn[f].n + Sum(T \ {f})
                                  IN Sum(S)
\* sends matches,
FnSend == \E v \in DOMAIN inv : \E f \in DOMAIN Fns : \E T \in SUBSET inv[v].offer :
  LET x == inv[v]
      k == v \o f \o ToString(x.fn[f].n + 1)
  IN
  /\ Up(x.i) /\ x.st = "run" /\ x.fn[f].st = "work" /\ Total(x) < MaxMatches
  /\ inv' = [inv EXCEPT ![v].fn[f].n = @ + 1, ![v].fn[f].chan = Append(@, [k |-> k, tix |-> SetToSeq(T)])]
  /\ Emit([e |-> "msend", v |-> v, f |-> f, k |-> k, tix |-> SetToSeq(T)])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

\* and ends.
FnEnd == \E v \in DOMAIN inv : \E f \in DOMAIN Fns :
  /\ Up(inv[v].i) /\ inv[v].st = "run" /\ inv[v].fn[f].st = "work"
  /\ inv' = [inv EXCEPT ![v].fn[f].st = "ended", ![v].fn[f].chan = Append(@, [k |-> "", tix |-> <<>>])]
  /\ Emit([e |-> "mend", v |-> v, f |-> f])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

\* The instance receives a match, and lets a goroutine of its own handle it; or the end of the stream.
FnRecv == \E v \in DOMAIN inv : \E f \in DOMAIN Fns :
  LET x == inv[v]
      h == Head(x.fn[f].chan)
  IN
  /\ Up(x.i) /\ x.st = "run" /\ x.fn[f].chan # <<>>
  /\ IF h.k # ""
     THEN /\ gor' = Put(gor, h.k, [v |-> v, f |-> f, i |-> x.i, tix |-> h.tix, enq |-> 0, res |-> <<>>, st |-> "deact"])
          /\ inv' = [inv EXCEPT ![v].fn[f].chan = Tail(@)]
     ELSE /\ UNCHANGED gor
          /\ inv' = [inv EXCEPT ![v].fn[f].chan = Tail(@), ![v].fn[f].st = "eof"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, cnt>>

GEnqueue == \E g \in DOMAIN gor :
  LET r == gor[g] IN
  /\ Up(r.i) /\ r.st = "deact" /\ r.enq < Len(r.tix)
  /\ q' = [q EXCEPT ![r.i] = Append(@, [cmd |-> "deactivate", key |-> r.tix[r.enq + 1], val |-> "", from |-> g])]
  /\ gor' = [gor EXCEPT ![g].enq = @ + 1]
  /\ Silent /\ UNCHANGED <<calls, wr, cache, inv, cnt>>

Inactive(i, t) == t \notin DOMAIN cache[i].tix \/ t \in cache[i].inact
\* Tickets whose deactivation was refused are not waited for.
Out(r) == IF "waitfirst" \in Variant
          THEN IF r.tix = <<>> THEN TRUE ELSE Inactive(r.i, r.tix[1])      \* wrong: only one ticket is looked at
          ELSE \A k \in DOMAIN r.tix : r.res[k] = "err" \/ Inactive(r.i, r.tix[k])

\* st: deact -> wait -> send -> done  or  deact -> send -> wait -> done
GDeactivated == \E g \in DOMAIN gor :
  LET r == gor[g] IN
  /\ Up(r.i) /\ r.st = "deact" /\ r.enq = Len(r.tix) /\ Len(r.res) = Len(r.tix)
  /\ gor' = [gor EXCEPT ![g].st = IF Wait THEN "wait" ELSE "send"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, inv, cnt>>

\* (each ticket is waited for in turn; it is enough that each has been seen inactive once)
GWaited == \E g \in DOMAIN gor :
  /\ Up(gor[g].i) /\ gor[g].st = "wait" /\ Out(gor[g])
  /\ gor' = [gor EXCEPT ![g].st = IF Wait THEN "send" ELSE "done"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, inv, cnt>>

\* Hands the match to the fan-in (which must not have been shut down).
GSend == \E g \in DOMAIN gor :
  LET r == gor[g] IN
  /\ Up(r.i) /\ r.st = "send"
  /\ IF inv[r.v].st \in {"run", "drain"}
     THEN /\ inv[r.v].out = <<>>        \* unbuffered
          /\ gor' = [gor EXCEPT ![g].st = IF Wait THEN "done" ELSE "wait"]
          /\ inv' = [inv EXCEPT ![r.v].out = <<g>>]
          /\ Silent
     ELSE /\ inv[r.v].st = "done"
          /\ Emit([e |-> "died", i |-> r.i])
          /\ gor' = [gor EXCEPT ![g].st = "gone"]
          /\ UNCHANGED inv
  /\ UNCHANGED <<calls, q, wr, cache, cnt>>

\* The fan-in sends it to the caller.
FanIn == \E v \in DOMAIN inv :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.out # <<>> /\ x.st \in {"run", "drain", "done"}
  /\ inv' = [inv EXCEPT ![v].out = <<>>]
  /\ IF x.cancelled \/ x.st = "done" THEN Silent       \* nobody receives it any more
     ELSE Emit([e |-> "mrecv", v |-> v, k |-> Head(x.out), same |-> TRUE])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

\* A function is finished when it has ended and all its matches have been handled.
FnDone == \E v \in DOMAIN inv : \E f \in DOMAIN Fns :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.st = "run" /\ x.fn[f].st = "eof"
  /\ \/ "nodrain" \in Variant /\ Fns[f] = "err"       \* wrong: an error ends it at once
     \/ \A g \in DOMAIN gor : gor[g].v = v /\ gor[g].f = f => gor[g].st = "done"
  /\ inv' = [inv EXCEPT ![v].fn[f].st = "done"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

AllDone == \E v \in DOMAIN inv :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.st = "run" /\ \A f \in DOMAIN Fns : x.fn[f].st = "done"
  /\ inv' = [inv EXCEPT ![v].st = "drain"]
  /\ Silent /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

InvDone == \E v \in DOMAIN inv :
  LET x == inv[v] IN
  /\ Up(x.i) /\ x.st = "drain"
  /\ x.out = <<>> \/ "nofanin" \in Variant            \* wrong: the last match may still be on its way
  /\ inv' = [inv EXCEPT ![v].st = "done"]
  /\ IF x.cancelled THEN Emit([e |-> "quiet", v |-> v])
     ELSE Emit([e |-> "invret", v |-> v, ok |-> TRUE, code |-> "OK", late |-> FALSE, early |-> FALSE])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

CancelInv == \E v \in DOMAIN inv :
  /\ MayCancel /\ Up(inv[v].i) /\ inv[v].st \in {"snap", "run"} /\ ~inv[v].cancelled
  /\ inv' = [inv EXCEPT ![v].cancelled = TRUE]
  /\ Emit([e |-> "cancel", v |-> v])
  /\ UNCHANGED <<calls, q, wr, cache, gor, cnt>>

Next == \/ CallCreate \/ CallState \/ Enqueue \/ Return \/ Take \/ Begin \/ Write1 \/ Replies
        \/ Poll \/ ApplyNext \/ Crash
        \/ Invoke \/ Look \/ Looked \/ FnStart \/ FnSend \/ FnEnd \/ FnRecv
        \/ GEnqueue \/ GDeactivated \/ GWaited \/ GSend \/ FanIn \/ FnDone \/ AllDone \/ InvDone \/ CancelInv

Spec == Init /\ [][Next]_vars

\* Everything a server does by itself goes on; what clients, functions and failures do need not.
Server == Enqueue \/ Return \/ Take \/ Begin \/ Write1 \/ Replies \/ Poll \/ ApplyNext \/ Look \/ Looked
          \/ FnStart \/ FnEnd \/ FnRecv \/ GEnqueue \/ GDeactivated \/ GWaited \/ GSend \/ FanIn \/ FnDone \/ AllDone \/ InvDone
LiveSpec == Spec /\ WF_vars(Server)

\* ------------------------------------------------------------------ what must hold
NoRuleBroken == bad = {}

\* The cache of an instance is the log up to where it has got.
CacheIsPrefix == \A i \in Inst :
  LET c == cache[i] IN [tix |-> c.tix, inact |-> c.inact, asg |-> c.asg] = CacheOf(m.log, c.app)

\* The two views of the history of a ticket agree.
HistAgrees == \A t \in DOMAIN m.hist : m.hist[t] = HistOf(m.log, t, Len(m.log))

\* Instances that have applied the same agree; and the monitor's bounds enclose what was applied.
Converged == \A i, j \in Inst : cache[i].app = cache[j].app => cache[i] = cache[j]
Bounds == \A i \in Inst : m.inst[i].lo <= cache[i].app /\ cache[i].app <= m.inst[i].recv

\* What was acknowledged is in the log, under its own id.
Acked == \A c \in DOMAIN calls :
  calls[c].st = "done" /\ calls[c].id # "" =>
     /\ m.log[m.pos[calls[c].id]].val = calls[c].val
     /\ \A d \in DOMAIN calls : d # c => calls[d].id # calls[c].id

\* Every call and every invocation comes to its end.
Settled2 == /\ \A c \in DOMAIN calls : calls[c].st # "run"
            /\ \A v \in DOMAIN inv : inv[v].st \in {"done", "gone"}
            /\ \A i \in Inst : Up(i) => cache[i].app = Len(m.log)
Progress == []<>Settled2
=============================================================================
