----------------------------- MODULE BatchTrace ------------------------------
(***************************************************************************)
(* Validates the batches of the real server against Batching.  Events:     *)
(*   bcfg  [most, wait, slack, memory]                                     *)
(*   ask   [ns, rank]: a call with the updates ns begins; it is queued     *)
(*         after all updates of lower rank;  ret [ns]: the call ends       *)
(*   write [n, conn]: n reaches the storage;  flush [conn]: so do all the  *)
(*         commands of the batch;  reply [conn]: the (slow) storage answers*)
(*   round, bend: no updates are outstanding                               *)
(* all with the time ms.                                                   *)
(***************************************************************************)
EXTENDS Batching, Integers, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, s, bad
\* at, rank: of every update asked for; call: first and last update of its call; done: those written;
\* open: conn :> the batch under way; prev: when the writer was free last; last: rank and time of the
\* last write; swaps: how often the order was broken in this round; off: the rounds in which it was
f == Traces[t][1]

Get(fn, x, d) == IF x \in DOMAIN fn THEN fn[x] ELSE d
Put(fn, x, v) == (x :> v) @@ fn
Set(q) == {q[k] : k \in DOMAIN q}
V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}

Begin == [at |-> <<>>, rank |-> <<>>, first |-> <<>>, done |-> {}, open |-> <<>>, prev |-> 0, rank1 |-> 0, swaps |-> 0, off |-> 0]
Empty == [b |-> <<>>, at |-> 0]

Flush(st, c) ==
  IF Get(st.open, c, Empty).b = <<>> THEN st
  ELSE [st EXCEPT !.open = Put(@, c, Empty), !.prev = Later(@, st.open[c].at)]
FlushViol(st, c) ==
  LET o == Get(st.open, c, Empty)
  IN IF o.b = <<>> THEN {}
     ELSE V(SizeOK(o.b, f.most), "batch-too-large", <<Len(o.b), f.most>>)
          \cup V(InTime(o.b, o.at, st.prev, f.wait, f.slack), "written-late", <<o, st.prev>>)
          \cup V(AtOnce(o.b, o.at, st.prev, f.most, f.slack), "full-batch-kept", <<o, st.prev>>)

EndRound(st) == [st EXCEPT !.off = IF st.swaps > 0 THEN @ + 1 ELSE @, !.swaps = 0]

Step(e) ==
  CASE e.e = "ask" -> [s EXCEPT !.at = [n \in Set(e.ns) |-> e.ms] @@ @, !.rank = [n \in Set(e.ns) |-> e.rank] @@ @,
                                !.first = [n \in Set(e.ns) |-> e.ns[1]] @@ @]
    [] e.e = "write" ->
         LET o == Get(s.open, e.conn, Empty)
             r == Get(s.rank, e.n, 0)
         IN [s EXCEPT !.done = @ \cup {e.n}, !.rank1 = Later(@, r), !.swaps = IF r < s.rank1 THEN @ + 1 ELSE @,
                      !.open = Put(@, e.conn, [b |-> Append(o.b, [n |-> e.n, at |-> Get(s.at, e.n, e.ms)]),
                                               at |-> IF o.b = <<>> THEN e.ms ELSE o.at])]
    [] e.e = "flush" -> Flush(s, e.conn)
    [] e.e = "reply" -> [s EXCEPT !.prev = Later(@, e.ms)]
    [] e.e = "round" -> EndRound(s)
    [] e.e = "bend" -> EndRound(s)
    [] OTHER -> s

Viol(e) ==
  CASE e.e = "write" ->
         V(e.n \in DOMAIN s.at, "never-asked-for", e)
         \cup V(e.n \notin s.done, "written-twice", e)
         \* within one call, everything before has been written
         \cup V(e.n \notin DOMAIN s.at \/ \A k \in s.first[e.n]..(e.n - 1) : k \in s.done, "order-in-call", e)
    [] e.e = "ret" ->
         V(e.code # "timeout", "no-answer", e)
         \cup V(f.memory \/ Set(e.ns) \subseteq s.done, "answered-unwritten", e)
         \cup V(~f.memory \/ e.ms <= s.at[e.ns[1]] + f.wait + f.slack, "answered-late", <<e, s.at[e.ns[1]]>>)
    [] e.e = "flush" -> FlushViol(s, e.conn)
    [] e.e = "bend" ->
         \* of several rounds, each with much time between the calls, one may have been upset by the machine
         V(EndRound(s).off <= 1, "out-of-order", s.off)
         \cup V(f.memory \/ DOMAIN s.at \subseteq s.done, "never-written", DOMAIN s.at \ s.done)
         \cup UNION {FlushViol(s, c) : c \in DOMAIN s.open}
    [] e.e = "died" -> {<<"server-died", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ s = Begin /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN /\ bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
              /\ s' = Step(e)
Spec == Init /\ [][Next]_<<t, l, s, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
