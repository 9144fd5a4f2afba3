----------------------------- MODULE MCSampleFns -----------------------------
(***************************************************************************)
(* The three functions, one ticket or one match at a time, for all pool    *)
(* sizes up to the given ones, with matches of a smaller size than real.   *)
(***************************************************************************)
EXTENDS SampleFns, TLC
CONSTANTS Broken, MaxSize

dims == [solo |-> 2, br |-> 3, brpool |-> "competitive", teams |-> 2, comp |-> [r \in {"tank", "healer", "dps"} |-> IF r = "dps" THEN 2 ELSE 1]]
Order == <<"tank", "healer", "dps", "dps">>
Keys(f) == IF f = "br" THEN {"competitive", "other"} ELSE {"tank", "healer", "dps", "other"}
\* tickets of pool number k: 100k+1 ..
Num(p) == CASE p = "tank" -> 1 [] p = "healer" -> 2 [] p = "dps" -> 3 [] p = "other" -> 4 [] p = "competitive" -> 5
Tix(p, n) == (100 * Num(p) + 1)..(100 * Num(p) + n)
Limit(p) == IF p \in {"dps", "competitive"} THEN MaxSize ELSE IF p = "other" THEN 3 ELSE MaxSize \div 2

VARIABLES f, pools, left, roster, matches, pc, cur
vars == <<f, pools, left, roster, matches, pc, cur>>
Seqs(S) == LET RECURSIVE G(_) G(T) == IF T = {} THEN <<>> ELSE <<Min(T)>> \o G(T \ {Min(T)}) IN G(S)

Init == /\ f \in {"solo", "team", "br"}
        /\ \E size \in [Keys(f) -> 0..MaxSize] : /\ \A p \in Keys(f) : size[p] <= Limit(p)
                                                /\ pools = [p \in Keys(f) |-> Tix(p, size[p])]
        /\ left = [p \in Keys(f) |-> Seqs(pools[p])]
        /\ roster = <<>> /\ matches = <<>> /\ pc = "go" /\ cur = ""

Match(rs) == [id |-> Len(matches), fn |-> f, profile |-> "prof", rosters |-> rs]
\* solo: pools in any order, each in sequence; a match whenever two are there
Solo == /\ f = "solo" /\ pc = "go"
        /\ \/ \E p \in Keys(f) : /\ left[p] # <<>>
                                 /\ cur \in {p, ""}
                                 /\ left' = [left EXCEPT ![p] = Tail(@)]
                                 /\ cur' = (IF Len(left[p]) = 1 THEN "" ELSE p)
                                 /\ LET r == Append(roster, Head(left[p]))
                                    IN IF Len(r) >= dims.solo
                                       THEN matches' = Append(matches, Match(<<r>>)) /\ roster' = (IF Broken = "keep" THEN <<Head(left[p])>> ELSE <<>>)
                                       ELSE matches' = matches /\ roster' = r
                                 /\ pc' = pc
           \/ /\ \A p \in Keys(f) : left[p] = <<>>
              /\ pc' = "done" /\ UNCHANGED <<left, matches, cur>>
              /\ roster' = <<>>
        /\ UNCHANGED <<f, pools>>
\* team: all of both teams, or the end
Take(q, k) == SubSeq(q, 1, IF k <= Len(q) THEN k ELSE Len(q))
Drop(q, k) == SubSeq(q, k + 1, Len(q))
Need(r) == dims.comp[r]
Team == /\ f = "team" /\ pc = "go"
        /\ LET roles == DOMAIN dims.comp
               enough == \A r \in roles : Len(left[r]) >= (IF Broken = "short" THEN 2 * Need(r) - 1 ELSE IF Broken = "greedyend" THEN 2 * Need(r) + 1 ELSE 2 * Need(r))
               team(k) == Take(Drop(left["tank"], (k - 1) * Need("tank")), Need("tank"))
                          \o Take(Drop(left["healer"], (k - 1) * Need("healer")), Need("healer"))
                          \o Take(Drop(left["dps"], (k - 1) * Need("dps")), Need("dps"))
           IN IF enough
              THEN /\ matches' = Append(matches, Match(<<team(1), team(2)>>))
                   /\ left' = [r \in DOMAIN left |-> IF r \in roles THEN Drop(left[r], IF Broken = "reuse" /\ r = "dps" THEN 3 ELSE 2 * Need(r)) ELSE left[r]]
                   /\ pc' = pc
              ELSE pc' = "done" /\ UNCHANGED <<left, matches>>
        /\ UNCHANGED <<f, pools, roster, cur>>
BR == /\ f = "br" /\ pc = "go"
      /\ LET q == left[dims.brpool] IN
         IF Len(q) >= (IF Broken = "brshort" THEN 1 ELSE dims.br)
         THEN /\ matches' = Append(matches, Match(<<Take(q, dims.br)>>))
              /\ left' = [left EXCEPT ![dims.brpool] = Drop(@, dims.br)] /\ pc' = pc
         ELSE pc' = "done" /\ UNCHANGED <<left, matches>>
      /\ UNCHANGED <<f, pools, roster, cur>>
Next == Solo \/ Team \/ BR
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == /\ \A k \in DOMAIN matches : Complete(f, dims, pools, matches[k])
         /\ NoTwice(matches) /\ OnlyOffered(pools, matches) /\ Ids(matches)
         /\ pc = "done" => Exhausted(f, dims, pools, matches)
Ends == <>(pc = "done")
=============================================================================
