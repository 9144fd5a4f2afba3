--------------------------- MODULE ReassembleTrace ---------------------------
(***************************************************************************)
(* Validates what the server library made of streams of chunks.            *)
(*   ra [chunks, avail, reads, ok, none, name, ext, pools]                 *)
(*     chunks as sent, of which the first `avail` could be read; reads: how *)
(*     often it read; ok: no error; none: no profile was returned          *)
(***************************************************************************)
EXTENDS Chunks, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
ByKey(ps) == [k \in {ps[j].key : j \in DOMAIN ps} |-> LET q == ps[CHOOSE j \in DOMAIN ps : ps[j].key = k] IN [spec |-> q.spec, tix |-> q.tix]]
Chunk(c) == [n |-> c.n, name |-> c.name, ext |-> c.ext, pools |-> ByKey(c.pools)]

ViolRa(e) ==
  IF e.avail < Len(e.chunks)
  THEN V(~e.ok, "profile-of-a-broken-stream", e) \cup V(e.none, "profile-beside-an-error", e)
       \cup V(e.reads = e.avail + 1, "reads", e)
  ELSE LET r == Reassembled([k \in DOMAIN e.chunks |-> Chunk(e.chunks[k])])
           got == [name |-> e.name, ext |-> e.ext, pools |-> ByKey(e.pools)]
       IN V(e.ok /\ ~e.none, "no-profile", e)
          \cup V(e.reads = Len(e.chunks), "reads", e)
          \cup V(~e.ok \/ e.none \/ got = r, "profile-differs", <<"got", got, "instead of", r>>)
Viol(e) ==
  CASE e.e = "ra" -> ViolRa(e)
    [] e.e = "panic" -> {<<"library-panicked", e>>}
    [] e.e = "hang" -> {<<"library-never-returns", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
