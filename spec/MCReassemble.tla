----------------------------- MODULE MCReassemble -----------------------------
(***************************************************************************)
(* The function's side: the server library reads chunks and puts pools     *)
(* together, step by step; at the end this is what Chunks.tla says.        *)
(* A chunk is given by what it holds of each pool: Absent, NoRoster, or    *)
(* how many tickets.  The stream fails after `avail` chunks.               *)
(***************************************************************************)
EXTENDS Chunks, TLC
CONSTANTS Pools, MaxChunks, Shapes, Broken

Absent == 100
NoRoster == 101

VARIABLES shape, avail, i, pools, out, reads
vars == <<shape, avail, i, pools, out, reads>>

\* All tickets are different.
Tix(k, p, s) == IF s >= 100 THEN <<>> ELSE [j \in 1..s |-> <<k, p, j>>]
Chunk(sh, k) == [ n |-> Len(sh), name |-> IF k = Len(sh) THEN "last" ELSE "other", ext |-> "ext",
                  pools |-> [p \in {q \in Pools : sh[k][q] # Absent} |-> [spec |-> p, tix |-> Tix(k, p, sh[k][p])]] ]
Chunks(sh) == [k \in DOMAIN sh |-> Chunk(sh, k)]

Cases == UNION {[1..n -> [Pools -> Shapes]] : n \in 1..MaxChunks}

Init == /\ shape \in Cases
        /\ avail \in 0..Len(shape)
        /\ i = 1 /\ pools = <<>> /\ out = <<>> /\ reads = 0

Merge(ps, c) ==
  [p \in DOMAIN ps \cup DOMAIN c.pools |->
     IF p \notin DOMAIN c.pools THEN ps[p]
     ELSE IF p \notin DOMAIN ps THEN c.pools[p]
     ELSE IF Broken = "replace" THEN c.pools[p]
     ELSE IF Broken = "front" THEN [ps[p] EXCEPT !.tix = c.pools[p].tix \o @]
     ELSE [ps[p] EXCEPT !.tix = @ \o c.pools[p].tix]]
Fresh(c, ps) == IF Broken = "empty" THEN [p \in {q \in DOMAIN c.pools : c.pools[q].tix # <<>> \/ q \in DOMAIN ps} |-> c.pools[p]] ELSE c.pools

Read == /\ out = <<>>
        /\ reads' = reads + 1
        /\ IF i > avail THEN /\ out' = (IF Broken = "partial" /\ pools # <<>> THEN <<[name |-> "", ext |-> "", pools |-> pools]>> ELSE <<[name |-> "error", ext |-> "", pools |-> <<>>]>>)
                             /\ UNCHANGED <<i, pools>>
           ELSE LET c == Chunk(shape, i)
                    ps == Merge(pools, [c EXCEPT !.pools = Fresh(c, pools)])
                IN /\ pools' = ps /\ i' = i + 1
                   /\ out' = (IF c.n = i - (IF Broken = "onemore" THEN 1 ELSE 0) THEN <<[name |-> c.name, ext |-> c.ext, pools |-> ps]>> ELSE <<>>)
        /\ UNCHANGED <<shape, avail>>
Next == Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == out # <<>> =>
  IF avail < Len(shape) THEN out[1].name = "error" /\ reads = avail + 1
  ELSE out = <<Reassembled(Chunks(shape))>> /\ reads = Len(shape)
Ends == <>(out # <<>>)
=============================================================================
