---------------------------- MODULE MCTicketTimes ----------------------------
(***************************************************************************)
(* Creation of a ticket as the server carries it out, step by step, over   *)
(* all combinations of a few timestamps; the rule holds at the end.        *)
(***************************************************************************)
EXTENDS TicketTimes

Stamps == {<<d, s, n>> : d \in {0, 1}, s \in {0, 1, Day - 1}, n \in {-1, 0, 999999999, 1000000000}}
          \cup {<<-719163, 0, 0>>, <<-719162, 0, 0>>, <<2932896, Day - 1, 999999999>>, <<2932897, 0, 0>>}
Subs == {[has |-> FALSE, at |-> <<0, 0, 0>>]} \cup {[has |-> TRUE, at |-> x] : x \in Stamps}
Now == {x \in Stamps : Valid(x)}
TTLs == {1, Day, Day + 1}

VARIABLES pc, c, e, now, ttl, cr, ex
vars == <<pc, c, e, now, ttl, cr, ex>>
Init == /\ pc = "created" /\ c \in Subs /\ e \in Subs /\ now \in Now /\ ttl \in TTLs /\ cr = <<0, 0, 0>> /\ ex = <<0, 0, 0>>
SetCreated == /\ pc = "created" /\ pc' = "expires"
              /\ cr' = IF c.has /\ Valid(c.at) THEN c.at ELSE now
              /\ UNCHANGED <<c, e, now, ttl, ex>>
SetExpires == /\ pc = "expires" /\ pc' = "done"
              /\ LET d == Plus(cr, ttl)
                 IN ex' = IF ~(e.has /\ Valid(e.at)) \/ Less(d, e.at) THEN d ELSE e.at
              /\ UNCHANGED <<c, e, now, ttl, cr>>
Next == SetCreated \/ SetExpires
Spec == Init /\ [][Next]_vars

Rule == pc = "done" => /\ Created(c, cr, now, now)
                       /\ ex = Expires(e, cr, ttl)
                       /\ Leq(ex, Plus(cr, ttl))
=============================================================================
