------------------------------ MODULE ChunkTrace ------------------------------
(***************************************************************************)
(* Validates the chunks that matchmaking functions really received.        *)
(*   cfn [f, req, chunks, extra, short]: all that one function received.   *)
(*     req: [name, ext, big, pools, groups]; pools [key, spec, tags, ok],  *)
(*          groups of active tickets [a, b, tags] numbered a..b            *)
(*          big: not even the empty profile and the largest ticket fit     *)
(*     chunks: [n, size, name, ext, pools], pools [key, spec, tix]         *)
(*     extra: messages beyond the announced number; short: fewer came      *)
(***************************************************************************)
EXTENDS Chunks, TLC, Json, IOUtils

Num == CHOOSE n \in 1..10000 : ToString(n) = IOEnv.TN
Traces == [k \in 1..Num |-> JsonDeserialize(IOEnv["T" \o ToString(k)])]
VARIABLES t, l, bad

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
ByKey(ps) == [k \in {ps[j].key : j \in DOMAIN ps} |-> ps[CHOOSE j \in DOMAIN ps : ps[j].key = k]]
Want(req, p) == UNION {req.groups[g].a..req.groups[g].b : g \in {h \in DOMAIN req.groups : SetOf(p.tags) \subseteq SetOf(req.groups[h].tags)}}
Request(req) == LET P == ByKey(req.pools)
                IN [name |-> req.name, ext |-> req.ext,
                    pools |-> [k \in DOMAIN P |-> [spec |-> P[k].spec, tix |-> IF P[k].ok THEN Want(req, P[k]) ELSE {}]]]
Opt(req) == {req.pools[j].key : j \in {i \in DOMAIN req.pools : ~req.pools[i].ok}}
Chunk(c) == LET P == ByKey(c.pools)
            IN [n |-> c.n, name |-> c.name, ext |-> c.ext, pools |-> [k \in DOMAIN P |-> [spec |-> P[k].spec, tix |-> P[k].tix]]]

Some(S) == IF S = {} THEN <<0>> ELSE <<Cardinality(S), CHOOSE x \in S : TRUE>>
Differ(r, a) == {<<p, "wrongly", Some(SetOf(a.pools[p].tix) \ r.pools[p].tix), "missing", Some(r.pools[p].tix \ SetOf(a.pools[p].tix)), "length", Len(a.pools[p].tix)>> :
                   p \in {q \in DOMAIN a.pools \cap DOMAIN r.pools : SetOf(a.pools[q].tix) # r.pools[q].tix \/ Len(a.pools[q].tix) # Cardinality(r.pools[q].tix)}}

ViolFn(e) ==
  IF e.chunks = <<>> THEN {<<"no-chunks", e.f>>}
  ELSE LET cs == [k \in DOMAIN e.chunks |-> Chunk(e.chunks[k])]
           r  == Request(e.req)
       IN V(Announced(cs) /\ e.extra = 0 /\ ~e.short, "chunk-count", <<e.f, [k \in DOMAIN cs |-> cs[k].n], e.extra, e.short>>)
          \cup V(e.req.big \/ \A k \in DOMAIN e.chunks : e.chunks[k].size <= Limit, "chunk-size", [k \in DOMAIN e.chunks |-> e.chunks[k].size])
          \cup V(WholeProfile(r, cs, Opt(e.req)), "chunk-profile", <<e.f, r.name, r.ext, Cardinality(DOMAIN r.pools),
                  [k \in DOMAIN cs |-> <<cs[k].name, cs[k].ext, Cardinality(DOMAIN cs[k].pools)>>]>>)
          \cup V(Exact(r, cs), "chunk-tickets", <<e.f, Differ(r, Reassembled(cs))>>)
Viol(e) ==
  CASE e.e = "cfn" -> ViolFn(e)
    [] e.e = "died" -> {<<"server-died", e>>}
    [] e.e = "noanswer" -> {<<"no-answer", e>>}
    [] OTHER -> {}

Init == t \in 1..Num /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
        /\ LET e == Traces[t][l + 1]
           IN bad' = {<<x[1], ToString(x[2])>> : x \in Viol(e)}
Spec == Init /\ [][Next]_<<t, l, bad>>
Report == /\ bad = {} \/ \A b \in bad : PrintT(<<"RULE", t, l, b[1], b[2]>>)
          /\ l < Len(Traces[t]) \/ PrintT(<<"TRACE-END", t, l>>)
Where == <<t, l>>
=============================================================================
