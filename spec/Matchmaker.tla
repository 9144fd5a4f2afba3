----------------------------- MODULE Matchmaker ------------------------------
(***************************************************************************)
(* What the example matchmaker owes: the history of a matchmaker as the    *)
(* server sees it.                                                         *)
(*                                                                         *)
(*   made [id]         the server has answered a creation with id          *)
(*   fetch             the matchmaker begins a cycle                       *)
(*   match [k, n]      the server streams it match k, with n > 0 tickets   *)
(*   fetched           the stream of the cycle has ended                   *)
(*   act [a, ids], acted [a]  an activation call begins, is answered       *)
(*   rejects [n]       n matches have been rejected so far, it says        *)
(*   end               it has had plenty of time                           *)
(*   stuck, died       it does not get on, is no more                      *)
(*                                                                         *)
(* Tickets are numbers: player's tickets 1, 2, ..., those of match k       *)
(* k * Wide + 1, k * Wide + 2, ...; the empty id is 0.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

V(cond, rule, info) == IF cond THEN {} ELSE {<<rule, info>>}
Set(q) == {q[k] : k \in DOMAIN q}
Put(fn, x, v) == (x :> v) @@ fn

Wide == 20000
Match(t) == t \div Wide
Tix(m, k) == {k * Wide + j : j \in 1..m.n[k]}

\* made: ids created; n: match :> number of its tickets; acts: ids sent for activation; calls: open call :> its ids
M0 == [made |-> {}, n |-> <<>>, acts |-> {}, calls |-> <<>>]

\* Matches of which a ticket was sent for activation; all of which were.
Touched(m) == {Match(t) : t \in m.acts} \ {0}
Whole(m) == {k \in Touched(m) : k \in DOMAIN m.n /\ Tix(m, k) \subseteq m.acts}
Known(m, S) == {t \in S : IF t < Wide THEN t \in m.made ELSE Match(t) \in DOMAIN m.n /\ t % Wide \in 1..m.n[Match(t)]}

MStep(m, e) ==
  CASE e.e = "made"    -> [m EXCEPT !.made = @ \cup {e.id}]
    [] e.e = "match"   -> [m EXCEPT !.n = Put(@, e.k, e.n)]
    [] e.e = "act"     -> [m EXCEPT !.acts = @ \cup (Set(e.ids) \ {0}), !.calls = Put(@, e.a, Set(e.ids))]
    [] e.e = "acted"   -> [m EXCEPT !.calls = [x \in DOMAIN @ \ {e.a} |-> @[x]]]
    [] OTHER -> m

\* most: how many ids a call may carry
MViol(m, e, most) ==
  CASE e.e = "act" ->
         LET S == Set(e.ids) \ {0}   \* a failed creation gives the empty id; it is not a ticket
         IN V(Len(e.ids) <= most, "call-too-large", Len(e.ids))
            \cup V(Len(e.ids) > 0, "empty-call", e.a)
            \cup V(Known(m, S) = S, "unknown-id", S \ Known(m, S))
            \cup V(S \cap m.acts = {} /\ Cardinality(S) = Cardinality({k \in DOMAIN e.ids : e.ids[k] # 0}), "activated-twice", S \cap m.acts)
    [] e.e = "fetch" ->
         V(\A a \in DOMAIN m.calls : \A t \in m.calls[a] : t < Wide, "cycle-started-early", DOMAIN m.calls)
         \cup V(Touched(m) = Whole(m), "match-in-part", Touched(m) \ Whole(m))
    [] e.e = "rejects" -> V(e.n = Cardinality(Whole(m)), "rejected-left-behind", <<e.n, Whole(m)>>)
    [] e.e = "end" ->
         V(m.made \subseteq m.acts, "left-behind", m.made \ m.acts)
         \cup V(m.calls = <<>>, "call-open", m.calls)
    [] e.e \in {"stuck", "died"} -> {<<e.e, e>>}
    [] OTHER -> {}
=============================================================================
