------------------------------ MODULE Monitor -------------------------------
(***************************************************************************)
(* The observable behaviour that Open Match core promises, as a state      *)
(* machine over the events at its boundaries: RPC calls and returns, the   *)
(* commands reaching the shared log, deliveries of the log to instances,   *)
(* chunks reaching matchmaking functions, matches, assignments, failures.  *)
(*                                                                         *)
(* m is the abstract state, Step(m, e) the effect of event e, and          *)
(* Viol(m, e) the set of rules that e breaks in state m: the behaviour     *)
(* up to and including e is allowed iff all of these sets are empty.       *)
(*                                                                         *)
(* Two users: OpenMatch.tla, the design model, feeds its own events to the *)
(* monitor and TLC proves for small constants that no rule is ever broken; *)
(* OMTrace.tla feeds it the events recorded from the real code.            *)
(*                                                                         *)
(* What the boundary cannot show is how far an instance has applied the    *)
(* log.  recv[i] (delivered to i) bounds it from above.  lo[i] bounds it   *)
(* from below: it is raised, by the least amount that explains it, by each *)
(* observation which depends on it.                                        *)
(***************************************************************************)
EXTENDS CacheOps

InitM == [ log   |-> <<>>,    \* entries [id, cmd, key, val]
           pos   |-> <<>>,    \* entry id :> position
           hist  |-> <<>>,    \* ticket id :> state changes, see CacheOps
           tags  |-> <<>>,    \* val :> tags of the ticket submitted with that value
           asg   |-> <<>>,    \* ticket id :> sequence of [at, val]
           gone  |-> 0,       \* all positions <= gone have been trimmed from the log
           inst  |-> <<>>,    \* instance :> [up, recv, lo, flt, rflt, down, max, wait, store]
           calls |-> <<>>,
           invs  |-> <<>>,
           wats  |-> <<>> ]

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
SeqSet(s) == {s[k] : k \in DOMAIN s}
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

\* ------------------------------------------------------------------ instances
\* The memory store begins empty; ids handed out before stay taken.
Start(m, e) ==
  LET n == IF e.store = "memory" THEN Len(m.log) ELSE 0
      m1 == IF e.store = "memory" THEN [m EXCEPT !.hist = <<>>, !.asg = <<>>] ELSE m
  IN [m1 EXCEPT !.inst = Put(@, e.i, [up |-> TRUE, recv |-> n, lo |-> n, flt |-> 0, rflt |-> 0, down |-> FALSE,
                                      max |-> e.max, wait |-> e.wait, store |-> e.store])]
\* Calls that were open on it get no answer.
Kill(m, e) == [m EXCEPT !.inst[e.i].up = FALSE,
                        !.calls = [c \in DOMAIN @ |-> IF @[c].i = e.i THEN [@[c] EXCEPT !.open = FALSE] ELSE @[c]]]
Fault(m, e) == [m EXCEPT !.inst[e.i].flt = @ + 1, !.inst[e.i].down = e.down]

\* ------------------------------------------------------------------ update calls
\* ups: the updates the call asks for, [cmd, key, val, form, tags]; form says whether the key has the
\* form of a storage id.  A call is void when it must be refused outright.
Void(m, e) == \/ e.ups = <<>>
              \/ e.kind # "create" /\ Len(e.ups) > m.inst[e.i].max

Call(m, e) ==
  [m EXCEPT
    !.calls = Put(@, e.c,
       [ i |-> e.i, kind |-> e.kind, void |-> Void(m, e), open |-> TRUE, flt |-> m.inst[e.i].flt,
         ups |-> IF Void(m, e) THEN <<>>
                 ELSE [k \in DOMAIN e.ups |->
                        [ cmd |-> e.ups[k].cmd, key |-> e.ups[k].key, val |-> e.ups[k].val,
                          st |-> IF e.ups[k].form THEN "pend" ELSE "bad", n |-> 0 ]] ]),
    !.tags = IF e.kind = "create" /\ ~Void(m, e) THEN Put(@, e.ups[1].val, SeqSet(e.ups[1].tags)) ELSE @]

\* Which pending update of which open call on the instance is being written?
Writes(m, e) ==
  {<<c, k>> \in UNION {{<<c, k>> : k \in DOMAIN m.calls[c].ups} :
                        c \in {d \in DOMAIN m.calls : m.calls[d].open /\ m.calls[d].i = e.i}} :
     LET u == m.calls[c].ups[k]
     IN u.st = "pend" /\ u.cmd = e.cmd
        /\ (IF e.cmd = "ticket" THEN u.val = e.val
            ELSE u.key = e.key /\ (e.cmd = "assign" => u.val = e.val))}

\* ... the first such update of the call.
Write(m, e) == LET W == Writes(m, e)
               IN CHOOSE w \in W : \A x \in W : x[1] = w[1] => w[2] <= x[2]

\* Invocations on instance i with a match that contains t.
Owed(m, i, t) == {v \in DOMAIN m.invs : m.invs[v].i = i /\
                    \E k \in DOMAIN m.invs[v].sent : t \in m.invs[v].sent[k].ids}

\* Updates of one call are written in the order given.  An update may be passed over only when the
\* connection to the storage failed meanwhile.
Skipped(m, c, k) == {j \in 1..(k - 1) : m.calls[c].ups[j].st = "pend"}
Troubled(m, c) == LET i == m.calls[c].i IN m.inst[i].flt # m.calls[c].flt \/ m.inst[i].down

WriteViol(m, e) ==
  IF Writes(m, e) # {}
  THEN LET w == Write(m, e)
       IN V(Skipped(m, w[1], w[2]) = {} \/ Troubled(m, w[1]), "order-in-call", e)
  ELSE IF e.cmd = "deactivate" /\ Owed(m, e.i, e.key) # {} THEN {}
  ELSE IF e.cmd = "deactivate" THEN {<<"spurious-deactivation", e>>}
  ELSE {<<"spurious-update", e>>}

Mark(m, e, st, n) ==
  IF Writes(m, e) = {} THEN m
  ELSE LET w == Write(m, e)
           \* a deactivation may just as well be that of a match
           both == e.cmd = "deactivate" /\ Owed(m, e.i, e.key) # {}
       IN [m EXCEPT !.calls[w[1]].ups[w[2]].st = IF both THEN "maybe" ELSE st, !.calls[w[1]].ups[w[2]].n = n]

AddEntry(m, e) ==
  LET n == Len(m.log) + 1
      x == [id |-> e.id, cmd |-> e.cmd, key |-> e.key, val |-> e.val]
      s == Subject(x)
      m1 == [m EXCEPT !.log = Append(@, x), !.pos = Put(@, e.id, n)]
  IN CASE e.cmd \in {"ticket", "activate", "deactivate"} ->
            [m1 EXCEPT !.hist = Put(@, s, Get(@, s, <<>>) \o Change(x, n))]
       [] e.cmd = "assign" ->
            [m1 EXCEPT !.asg = Put(@, s, Append(Get(@, s, <<>>), [at |-> n, val |-> e.val]))]
       [] OTHER -> m1

Add(m, e)     == AddEntry(Mark(m, e, "ok", Len(m.log) + 1), e)
AddViol(m, e) == WriteViol(m, e)
                 \cup V(e.id \notin DOMAIN m.pos, "id-reused", e)
                 \cup V(e.idx = Len(m.log) + 1, "harness-position", e)

\* The storage refused the update: it is not in the log, and i has been told so.
\* (For a match's tickets this is noted with every invocation that owes the deactivation.)
AddFail(m, e) ==
  LET m1 == Mark(m, e, "fail", 0)
  IN IF e.cmd # "deactivate" THEN m1
     ELSE [m1 EXCEPT !.invs = [v \in DOMAIN @ |->
              IF v \in Owed(m, e.i, e.key) THEN [@[v] EXCEPT !.refused = @ \cup {e.key}] ELSE @[v]]]

\* The entries at positions ns were stored, but the reply may not have reached the instance.
Lost(m, e) ==
  [m EXCEPT !.inst[e.i].flt = @ + 1,
            !.calls = [c \in DOMAIN @ |->
               [@[c] EXCEPT !.ups = [k \in DOMAIN @ |->
                   IF @[k].st = "ok" /\ @[k].n \in SeqSet(e.ns) THEN [@[k] EXCEPT !.st = "maybe"] ELSE @[k]]]]]

\* An entry that reaches the log by another way (another, unobserved instance).
Inject(m, e) == LET m1 == AddEntry(m, e)
                IN IF e.cmd = "ticket" THEN [m1 EXCEPT !.tags = Put(@, e.val, SeqSet(e.tags))] ELSE m1

RetViol1(m, e) ==
  LET c == m.calls[e.c]
      ups == c.ups
      Is(S) == {k \in DOMAIN ups : ups[k].st \in S}
      good == {ups[k].key : k \in Is({"ok"})}
      \* pend at the return: never written
      nope == {ups[k].key : k \in Is({"fail", "pend"})}
      soso == {ups[k].key : k \in Is({"maybe"})}
      bad  == SeqSet(e.bad)
  IN IF c.void THEN V(~e.ok /\ e.code = "InvalidArgument", "invalid-accepted", e)
     ELSE IF e.code = "timeout" THEN {<<"no-answer", e>>}
     ELSE
     CASE c.kind = "create" ->
            IF e.ok
            THEN V(ups[1].st \in {"ok", "maybe"}, "success-not-stored", e)
                 \cup V(e.id # "", "empty-id", e)
                 \cup V(ups[1].st \notin {"ok", "maybe"} \/ e.id = m.log[ups[1].n].id, "wrong-id", e)
            ELSE V(ups[1].st # "ok", "stored-but-failed", e)
                 \cup V(ups[1].st # "pend" \/ Troubled(m, e.c), "not-written", e)
       [] c.kind \in {"act", "deact"} ->
            V(nope \subseteq bad, "failure-not-reported", <<e, nope>>)
            \cup V(bad \subseteq nope \cup soso, "stored-but-failed", <<e, good>>)
            \cup V(e.ok <=> bad = {}, "outcome-inconsistent", e)
            \* nothing was wrong with the storage: everything valid must have been written
            \cup V(Is({"pend"}) = {} \/ Troubled(m, e.c), "not-written", e)
       [] c.kind = "assign" ->
            V(nope = {} \/ ~e.ok, "failure-not-reported", <<e, nope>>)
            \cup V(nope # {} \/ soso # {} \/ e.ok \/ Is({"bad"}) # {}, "stored-but-failed", e)
            \cup V(Is({"pend"}) = {} \/ Troubled(m, e.c), "not-written", e)

\* Which of several identical updates, asked for at the same time by different calls, an entry was made
\* for cannot be seen: give each call, as it returns, those that agree with what it says.
Says(m, e, k) ==
  LET c == m.calls[e.c]
      u == c.ups[k]
      Good == {"ok", "maybe", "bad"}
      Bad == {"fail", "pend", "maybe", "bad"}
      \* it says that one of these failed: one that did is enough
      One(K) == IF \E j \in K : c.ups[j].st \in Bad THEN Good \cup Bad ELSE Bad
  IN CASE c.kind \in {"act", "deact"} -> IF u.key \in SeqSet(e.bad) THEN One({j \in DOMAIN c.ups : c.ups[j].key = u.key}) ELSE Good
       [] c.kind = "assign" -> IF e.ok THEN Good ELSE One(DOMAIN c.ups)
       [] OTHER -> IF e.ok THEN Good ELSE Bad
\* ... and a creation names the entry that was made for it.
Fits(m, e, k, u) == /\ u.st \in Says(m, e, k)
                    /\ m.calls[e.c].kind = "create" /\ e.ok /\ u.n > 0 => m.log[u.n].id = e.id
Twins(m, e, k) ==
  LET u == m.calls[e.c].ups[k]
  IN {<<d, j>> \in UNION {{<<d, j>> : j \in DOMAIN m.calls[d].ups} :
                          d \in {x \in DOMAIN m.calls : x # e.c /\ m.calls[x].i = m.calls[e.c].i}} :
        LET w == m.calls[d].ups[j]
        IN /\ m.calls[d].open \/ (w.st = "maybe" /\ u.st \in {"pend", "fail"}) \* (told that it failed, then)
           /\ w.cmd = u.cmd /\ w.key = u.key /\ w.val = u.val /\ Fits(m, e, k, w)}
RECURSIVE Agree(_, _, _)
Agree(m, e, k) ==
  IF k > Len(m.calls[e.c].ups) THEN m
  ELSE LET Fail == {w \in Twins(m, e, k) : m.calls[w[1]].open /\ m.calls[w[1]].ups[w[2]].st \in {"fail", "maybe"}}
           st == m.calls[e.c].ups[k].st
       IN \* a failure is rather one that has been seen: what is pending may still be written
       IF (Fits(m, e, k, m.calls[e.c].ups[k]) /\ (st # "pend" \/ Fail = {})) \/ Twins(m, e, k) = {} THEN Agree(m, e, k + 1)
  ELSE LET w == CHOOSE w \in (IF st = "pend" /\ Fail # {} THEN Fail ELSE Twins(m, e, k)) : TRUE
           a == m.calls[e.c].ups[k]
           b == m.calls[w[1]].ups[w[2]]
       IN Agree([m EXCEPT !.calls[e.c].ups[k] = b, !.calls[w[1]].ups[w[2]] = a], e, k + 1)

Ret(m, e) == [Agree(m, e, 1) EXCEPT !.calls[e.c].open = FALSE]
RetViol(m, e) == RetViol1(Agree(m, e, 1), e)

\* ------------------------------------------------------------------ deliveries of the log
ReadViol(m, e) ==
  LET s == m.inst[e.i]
      next == Max2(s.recv, m.gone) + 1
  IN V(e.from <= next, "log-gap", <<e, next>>)
     \cup V(e.from >= next \/ s.flt # s.rflt, "log-reread", <<e, next>>)
Read(m, e) == [m EXCEPT !.inst[e.i].recv = Max2(@, e.upto), !.inst[e.i].rflt = m.inst[e.i].flt]
\* Entries leave the log only when they are older than the ticket lifetime (if the event knows it).
TrimViol(m, e) == V("ttl" \notin DOMAIN e \/ e.ttl = 0 \/ e.young > e.ttl, "trimmed-early", e)
\* The oldest entry some time after a batch was written.
LogAgeViol(m, e) == V(e.oldest <= e.ttl + e.slack, "not-trimmed", e)
Trim(m, e) == [m EXCEPT !.gone = Max2(@, e.upto)]

\* ------------------------------------------------------------------ invocations
\* pools: the requested pools [name, tags]; fns: [m, kind], kind one of
\*   ok, err (ends with an error), hang (never ends), dead (cannot be reached), gone (connection cut)
Inv(m, e) ==
  [m EXCEPT !.invs = Put(@, e.v,
     [ i |-> e.i, flt |-> m.inst[e.i].flt, lo |-> m.inst[e.i].lo, len |-> Len(m.log), open |-> TRUE, cancelled |-> FALSE,
       void |-> e.fns = <<>> \/ ~e.profile,
       pools |-> [n \in {e.pools[k].name : k \in DOMAIN e.pools} |->
                    SeqSet((CHOOSE p \in SeqSet(e.pools) : p.name = n).tags)],
       fns |-> [f \in {e.fns[k].m : k \in DOMAIN e.fns} |-> (CHOOSE g \in SeqSet(e.fns) : g.m = f).kind],
       seen |-> <<>>, sent |-> <<>>, got |-> {}, ended |-> {}, refused |-> {} ])]

\* What a function has been offered: got[k] = [name, tix], tix a sequence of [id, val].
Meets(m, tags, t) == tags \subseteq Get(m.tags, m.log[m.pos[t]].val, {})
IsTicket(m, t) == t \in DOMAIN m.pos /\ m.log[m.pos[t]].cmd = "ticket"
Known(m, hi) == {t \in DOMAIN m.hist : IsTicket(m, t) /\ m.pos[t] <= hi}

PoolViol(m, e) ==
  LET v == m.invs[e.v]
      hi == m.inst[v.i].recv
      One(p) ==
        LET ids == {p.tix[k].id : k \in DOMAIN p.tix}
            want == v.pools[p.name]
        IN IF p.name \notin DOMAIN v.pools THEN {<<"pool-unknown", <<e.v, p.name>>>>}
           ELSE V(Cardinality(ids) = Len(p.tix), "pool-duplicate", <<e.v, p.name>>)
           \cup UNION {LET t == p.tix[k].id IN
                  IF t \notin Known(m, hi) THEN {<<"pool-unknown-ticket", <<e.v, t>>>>}
                  ELSE V(OnSomewhere(m.hist[t], v.lo, hi), "pool-inactive-offered", <<e.v, p.name, t, v.lo, hi, m.hist[t]>>)
                       \cup V(Meets(m, want, t), "pool-filter", <<e.v, p.name, t>>)
                       \cup V(p.tix[k].val = m.log[m.pos[t]].val, "ticket-content", <<e.v, t>>)
                : k \in DOMAIN p.tix}
           \cup {<<"pool-active-missing", <<e.v, p.name, t, v.lo, hi, m.hist[t]>>>> :
                   t \in {x \in Known(m, hi) \ ids : Meets(m, want, x) /\ ~OffSomewhere(m.hist[x], v.lo, hi)}}
  IN UNION {One(e.pools[k]) : k \in DOMAIN e.pools}
     \cup V(DOMAIN v.pools = {e.pools[k].name : k \in DOMAIN e.pools}, "pool-set", <<e.v, DOMAIN v.pools>>)
     \cup V(v.seen = <<>> \/ v.seen = e.pools, "functions-differ", e.v)

Pool(m, e) ==
  LET v == m.invs[e.v]
      hi == m.inst[v.i].recv
      Needs(p) ==
        IF p.name \notin DOMAIN v.pools THEN {}
        ELSE LET ids == {p.tix[k].id : k \in DOMAIN p.tix} \cap Known(m, hi)
                 out == {x \in Known(m, hi) \ ids : Meets(m, v.pools[p.name], x)}
             IN {MinOn(m.hist[t], v.lo, hi) : t \in {x \in ids : OnSomewhere(m.hist[x], v.lo, hi)}}
                \cup {MinOff(m.hist[t], v.lo, hi) : t \in {x \in out : OffSomewhere(m.hist[x], v.lo, hi)}}
      all == UNION {Needs(e.pools[k]) : k \in DOMAIN e.pools} \cup {m.inst[v.i].lo}
  IN [m EXCEPT !.invs[e.v].seen = IF @ = <<>> THEN e.pools ELSE @,
               !.inst[v.i].lo = MaxOf(all)]

\* Function f sends match k of the invocation; tix: ids in all its rosters.  lo: how much of the log
\* the serving instance must have applied by then; tickets not offered to the functions are marked.
Offered2(v) == UNION {{v.seen[k].tix[j].id : j \in DOMAIN v.seen[k].tix} : k \in DOMAIN v.seen}
MSend(m, e) ==
  LET T == {t \in SeqSet(e.tix) : IsTicket(m, t)}
  IN [m EXCEPT !.invs[e.v].sent =
        Put(@, e.k, [f |-> e.f, ids |-> SeqSet(e.tix), tix |-> T, off |-> T \cap Offered2(m.invs[e.v]),
                     len |-> Len(m.log), lo |-> m.inst[m.invs[e.v].i].lo])]

\* Deactivations of a ticket in the log after match k was sent.
DeactAt(m, t, after) == {n \in (after + 1)..Len(m.log) : m.log[n].cmd = "deactivate" /\ m.log[n].key = t}

\* Tickets of the sent matches K that are not (yet) out of circulation: the deactivation is not in the
\* log, or, for a ticket which was offered, the serving instance cannot have seen it inactive since.
Loose(m, v, K) ==
  {t \in UNION {m.invs[v].sent[k].tix : k \in K} :
     /\ t \notin m.invs[v].refused
     /\ \E k \in K : LET s == m.invs[v].sent[k]
                     IN /\ t \in s.tix
                        /\ \/ DeactAt(m, t, s.len) = {}
                           \/ t \in s.off /\ ~OffSomewhere(m.hist[t], s.lo, m.inst[m.invs[v].i].recv)}

\* What the serving instance must have applied for them to be out of circulation.
Settled(m, v, K) ==
  UNION {LET s == m.invs[v].sent[k]
             hi == m.inst[m.invs[v].i].recv
         IN {MinOff(m.hist[t], s.lo, hi) : t \in {x \in s.off \ m.invs[v].refused : OffSomewhere(m.hist[x], s.lo, hi)}}
         : k \in K}

\* The storage failed in some way during the invocation.
Troubled2(m, v) == LET i == m.invs[v].i IN m.inst[i].down \/ m.inst[i].flt # m.invs[v].flt

MRecvViol(m, e) ==
  LET v == m.invs[e.v]
  IN IF e.k \notin DOMAIN v.sent THEN {<<"match-invented", e>>}
     ELSE V(e.k \notin v.got, "match-duplicated", e)
          \cup V(e.same, "match-altered", e)
          \cup V(v.open, "match-after-end", e)
          \cup V(m.inst[v.i].wait => (Troubled2(m, e.v) \/ Loose(m, e.v, {e.k}) = {}),
                 "delivered-before-deactivation", <<e, Loose(m, e.v, {e.k})>>)

MRecv(m, e) ==
  LET m1 == [m EXCEPT !.invs[e.v].got = @ \cup {e.k}]
      i == m.invs[e.v].i
  IN IF e.k \in DOMAIN m.invs[e.v].sent /\ m.inst[i].wait /\ ~Troubled2(m, e.v)
     THEN [m1 EXCEPT !.inst[i].lo = MaxOf({@} \cup Settled(m, e.v, {e.k}))]
     ELSE m1

MEnd(m, e) == [m EXCEPT !.invs[e.v].ended = @ \cup {e.f}]
Cancel(m, e) == [m EXCEPT !.invs[e.v].cancelled = TRUE]

\* Matches whose delivery is owed: those of a function that did not lose its connection.
Due(v) == {k \in DOMAIN v.sent : v.fns[v.sent[k].f] # "gone"}
\* Matches whose tickets must be out of circulation: these, and whatever was delivered.
Held(v) == Due(v) \cup (v.got \cap DOMAIN v.sent)

InvRetViol(m, e) ==
  LET v == m.invs[e.v]
      must == {f \in DOMAIN v.fns : v.fns[f] \in {"ok", "err"}}
  IN IF v.void THEN V(~e.ok /\ e.code = "InvalidArgument", "invalid-accepted", e)
     ELSE IF v.cancelled THEN {}
     ELSE IF e.code = "timeout" THEN {<<"invocation-never-completes", e>>}
     ELSE V(must \subseteq v.ended, "completed-early", <<e, must \ v.ended>>)
          \cup V(Due(v) \subseteq v.got, "match-lost", <<e, Due(v) \ v.got>>)
          \cup V(Troubled2(m, e.v) \/ Loose(m, e.v, Held(v)) = {}, "not-deactivated", <<e, Loose(m, e.v, Held(v))>>)
          \cup V(e.late = FALSE, "limit-ignored", e)
          \cup V(e.early = FALSE, "cut-before-limit", e)

InvRet(m, e) ==
  LET i == m.invs[e.v].i
      m1 == [m EXCEPT !.invs[e.v].open = FALSE]
  IN IF m.invs[e.v].void \/ m.invs[e.v].cancelled \/ Troubled2(m, e.v) THEN m1
     ELSE [m1 EXCEPT !.inst[i].lo = MaxOf({@} \cup Settled(m, e.v, Held(m.invs[e.v])))]

\* The harness has waited, generously, for everything an invocation still has to do.
Quiet(m, e) == m
QuietViol(m, e) == V(Troubled2(m, e.v) \/ Loose(m, e.v, Held(m.invs[e.v])) = {},
                     "not-deactivated", <<e, Loose(m, e.v, Held(m.invs[e.v]))>>)

\* ------------------------------------------------------------------ assignment watches
Watch(m, e) ==
  [m EXCEPT !.wats = Put(@, e.w, [i |-> e.i, ids |-> e.ids, lo |-> m.inst[e.i].lo, got |-> <<>>, open |-> TRUE])]

CountIn(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})

\* Positions in lo..hi at which the assignment of t is val.
AsgAt(m, t, val, lo, hi) ==
  LET h == Get(m.asg, t, <<>>)
      P == {lo} \cup {h[k].at : k \in {j \in DOMAIN h : h[j].at > lo /\ h[j].at <= hi}}
  IN {a \in P : LET k == LastAt(h, a) IN k > 0 /\ h[k].val = val}

WMsgViol(m, e) ==
  LET w == m.wats[e.w]
  IN V(e.id \in SeqSet(w.ids), "watch-unlisted", e)
     \cup V(CountIn(w.got, e.id) < CountIn(w.ids, e.id), "watch-duplicate", e)
     \cup V(AsgAt(m, e.id, e.val, w.lo, m.inst[w.i].recv) # {}, "watch-wrong-assignment", e)
WMsg(m, e) ==
  LET w == m.wats[e.w]
      A == AsgAt(m, e.id, e.val, w.lo, m.inst[w.i].recv)
  IN [m EXCEPT !.wats[e.w].got = Append(@, e.id),
               !.inst[w.i].lo = IF A = {} THEN @ ELSE Max2(@, MinOf(A))]

\* how: done (ended by the server), cancel (by the client), timeout (the harness gave up)
WEndViol(m, e) ==
  LET w == m.wats[e.w]
  IN IF e.how = "cancel" THEN {}
     ELSE V(e.how # "timeout", "watch-never-ends", e)
          \cup V(Len(w.got) = Len(w.ids) \/ e.expired, "watch-ended-early", <<e, w>>)
          \* at the end of the lifetime, everything known long before has been answered
          \cup {<<"watch-unanswered", <<e, t>>>> : t \in
                  {x \in SeqSet(w.ids) : CountIn(w.got, x) < CountIn(w.ids, x) /\
                      \E k \in DOMAIN Get(m.asg, x, <<>>) : m.asg[x][k].at <= e.known}}
WEnd(m, e) == [m EXCEPT !.wats[e.w].open = FALSE]

\* ------------------------------------------------------------------ all together
Died(m, e)  == Kill(m, e)

Step(m, e) ==
  CASE e.e = "start"   -> Start(m, e)
    [] e.e = "kill"    -> Kill(m, e)
    [] e.e = "fault"   -> Fault(m, e)
    [] e.e = "call"    -> Call(m, e)
    [] e.e = "add"     -> Add(m, e)
    [] e.e = "addfail" -> AddFail(m, e)
    [] e.e = "lost"    -> Lost(m, e)
    [] e.e = "inject"  -> Inject(m, e)
    [] e.e = "ret"     -> Ret(m, e)
    [] e.e = "read"    -> Read(m, e)
    [] e.e = "trim"    -> Trim(m, e)
    [] e.e = "inv"     -> Inv(m, e)
    [] e.e = "pool"    -> Pool(m, e)
    [] e.e = "msend"   -> MSend(m, e)
    [] e.e = "mrecv"   -> MRecv(m, e)
    [] e.e = "mend"    -> MEnd(m, e)
    [] e.e = "cancel"  -> Cancel(m, e)
    [] e.e = "invret"  -> InvRet(m, e)
    [] e.e = "quiet"   -> Quiet(m, e)
    [] e.e = "watch"   -> Watch(m, e)
    [] e.e = "wmsg"    -> WMsg(m, e)
    [] e.e = "wend"    -> WEnd(m, e)
    [] e.e = "died"    -> Died(m, e)
    [] OTHER           -> m

Viol(m, e) ==
  CASE e.e = "add"     -> AddViol(m, e)
    [] e.e = "addfail" -> WriteViol(m, e)
    [] e.e = "inject"  -> V(e.idx = Len(m.log) + 1, "harness-position", e)
    [] e.e = "ret"     -> RetViol(m, e)
    [] e.e = "read"    -> ReadViol(m, e)
    [] e.e = "trim"    -> TrimViol(m, e)
    [] e.e = "logage"  -> LogAgeViol(m, e)
    [] e.e = "conns"   -> V(e.most <= e.limit, "too-many-connections", e)
    \* What an instance holds after calls have ended, in whatever way, is what it held before them.
    \* a function streamed e.n different matches, and nothing was wrong with it
    [] e.e = "flood"   -> V(e.got >= e.n, "match-lost", e) \cup V(e.twice = 0, "match-duplicated", e)
                          \cup V(e.other = 0, "match-altered", e) \cup V(e.ok, "invocation-never-completes", e)
    \* an instance was compared with what the log said, which was e.n tickets long
    [] e.e = "bulk"    -> V(e.missing = 0 /\ e.extra = 0 /\ e.twice = 0, "log-not-followed", e)
                          \cup V(e.unassigned = 0 /\ e.wrong = 0, "log-not-followed", e)
    [] e.e = "held"    -> V(e.now <= e.first + e.slack, "held-after-end", e)
    [] e.e = "pool"    -> PoolViol(m, e)
    [] e.e = "mrecv"   -> MRecvViol(m, e)
    [] e.e = "invret"  -> InvRetViol(m, e)
    [] e.e = "quiet"   -> QuietViol(m, e)
    [] e.e = "wmsg"    -> WMsgViol(m, e)
    [] e.e = "wend"    -> WEndViol(m, e)
    [] e.e = "died"    -> {<<"server-died", e>>}
    [] e.e = "stuck"   -> {<<"not-applied", e>>}     \* an update had no effect within half a minute
    [] e.e = "unserviceable" -> {<<"unable-to-serve", e>>}
    [] OTHER           -> {}
=============================================================================
