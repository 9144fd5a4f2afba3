------------------------------ MODULE MCExpiry -------------------------------
(***************************************************************************)
(* Maintenance of the cache against a clock: updates, the steps of the     *)
(* expiration cycle, and the steps of a pool snapshot interleave; whatever *)
(* they do, what is offered, answered and held is what Expiry allows.      *)
(*                                                                         *)
(* Broken: "markonly" drops marks but not their tickets; "markfirst" drops *)
(* the mark before the ticket; "starve" lets updates keep the cycle from   *)
(* running; "norecheck" trusts the copied marks; "early" drops marks one   *)
(* tick early; "asgttl" drops assignments with the ticket; "ticketonly"    *)
(* drops marks of expired tickets along with them; "late" drops tickets    *)
(* one tick late.                                                          *)
(***************************************************************************)
EXTENDS Expiry, TLC

CONSTANTS Tix, MaxTime, TTL, Add, D, Changes, Broken
\* the slack that the bound D on cycles amounts to
F(w) == [ttl |-> TTL, add |-> Add, cycle |-> 2 * D + 1, swept |-> w]

VARIABLES now, tk, tix, inact, asg, mt, done, snap, ok, left
vars == <<now, tk, tix, inact, asg, mt, done, snap, ok, left>>

Idle == [st |-> "idle", todo |-> {}, cur |-> 0, at |-> 0]
NoSnap == [st |-> "idle", a |-> 0, w |-> 0, copy |-> {}, todo |-> {}, got |-> {}]
Init == /\ now = 0 /\ tk = [t \in Tix |-> [c |-> 0, x |-> 0, h |-> <<>>, s |-> <<>>]]
        /\ tix = {} /\ inact = {} /\ asg = {} /\ mt = Idle /\ done = 0 /\ snap = NoSnap /\ ok = TRUE /\ left = Changes

There(t) == tk[t].h # <<>>
Applying == mt.st = "idle" /\ left > 0 /\ left' = left - 1   \* the same thread applies and maintains
Create(t) == /\ Applying /\ ~There(t)
             /\ \E x \in {now + 1, now + TTL, now + TTL + 3} :  \* the last: a creation time in the future
                  tk' = [tk EXCEPT ![t] = [c |-> now, x |-> x, h |-> <<[on |-> FALSE, a |-> now, b |-> now]>>, s |-> <<>>]]
             /\ tix' = tix \cup {t} /\ inact' = inact \cup {t}
             /\ UNCHANGED <<now, asg, mt, done, snap, ok>>
Change(t, on) == /\ Applying /\ There(t) /\ tk[t].h[Len(tk[t].h)].on # on
                 /\ tk' = [tk EXCEPT ![t].h = Append(@, [on |-> on, a |-> now, b |-> now])]
                 /\ inact' = IF on THEN inact \ {t} ELSE inact \cup {t}
                 /\ UNCHANGED <<now, tix, asg, mt, done, snap, ok>>
Assign(t) == /\ Applying /\ There(t)
             /\ tk' = [tk EXCEPT ![t].s = Append(@, [a |-> now, b |-> now])]
             /\ asg' = asg \cup {t}
             /\ UNCHANGED <<now, tix, inact, mt, done, snap, ok>>

\* ------------------------------------------------------------------ the cycle
Old(t, life) == now - tk[t].c > life
Begin == /\ mt.st = "idle" /\ mt' = [st |-> "marks", todo |-> inact, cur |-> 0, at |-> now]
         /\ UNCHANGED <<now, tk, tix, inact, asg, done, snap, ok, left>>
Marks == /\ mt.st = "marks"
         /\ IF mt.cur # 0
            THEN /\ mt' = [mt EXCEPT !.cur = 0]
                 /\ IF Broken = "markfirst" THEN tix' = tix \ {mt.cur} /\ UNCHANGED inact
                    ELSE inact' = inact \ {mt.cur} /\ UNCHANGED tix
            ELSE IF mt.todo = {} THEN mt' = [mt EXCEPT !.st = "tix", !.todo = tix] /\ UNCHANGED <<tix, inact>>
            ELSE \E t \in mt.todo :
                   IF Old(t, IF Broken = "early" THEN TTL - 1 ELSE TTL)
                   THEN /\ mt' = [mt EXCEPT !.todo = @ \ {t}, !.cur = t]
                        /\ IF Broken = "markfirst" THEN inact' = inact \ {t} /\ UNCHANGED tix
                           ELSE tix' = (IF Broken = "markonly" THEN tix ELSE tix \ {t}) /\ UNCHANGED inact
                   ELSE mt' = [mt EXCEPT !.todo = @ \ {t}] /\ UNCHANGED <<tix, inact>>
         /\ UNCHANGED <<now, tk, asg, done, snap, ok, left>>
Tickets == /\ mt.st = "tix"
           /\ IF mt.todo = {} THEN mt' = [mt EXCEPT !.st = "asg", !.todo = asg] /\ UNCHANGED <<tix, inact>>
              ELSE \E t \in mt.todo : /\ mt' = [mt EXCEPT !.todo = @ \ {t}]
                                      /\ tix' = IF now > tk[t].x + (IF Broken = "late" THEN 1 ELSE 0) THEN tix \ {t} ELSE tix
                                      /\ inact' = IF now > tk[t].x /\ Broken = "ticketonly" THEN inact \ {t} ELSE inact
           /\ UNCHANGED <<now, tk, asg, done, snap, ok, left>>
Asgs == /\ mt.st = "asg"
        /\ IF mt.todo = {} THEN mt' = Idle /\ done' = mt.at /\ UNCHANGED asg
           ELSE \E t \in mt.todo : /\ mt' = [mt EXCEPT !.todo = @ \ {t}]
                                   /\ asg' = IF Old(t, IF Broken = "asgttl" THEN TTL ELSE TTL + Add) THEN asg \ {t} ELSE asg
                                   /\ UNCHANGED done
        /\ UNCHANGED <<now, tk, tix, inact, snap, ok, left>>

\* A cycle that began at most D ago has been completed, at any time.
Tick == /\ now < MaxTime
        /\ Broken = "starve" \/ now + 1 - done <= D
        /\ now' = now + 1 /\ UNCHANGED <<tk, tix, inact, asg, mt, done, snap, ok, left>>

\* ------------------------------------------------------------------ a snapshot
Copy == /\ snap.st = "idle" /\ snap' = [NoSnap EXCEPT !.st = "copy", !.a = now, !.w = done, !.copy = inact]
        /\ UNCHANGED <<now, tk, tix, inact, asg, mt, done, ok, left>>
Range == /\ snap.st = "copy" /\ snap' = [snap EXCEPT !.st = "range", !.todo = tix]
         /\ UNCHANGED <<now, tk, tix, inact, asg, mt, done, ok, left>>
Visit == /\ snap.st = "range" /\ snap.todo # {}
         /\ \E t \in snap.todo :
              snap' = [snap EXCEPT !.todo = @ \ {t},
                         !.got = IF t \in tix /\ t \notin snap.copy /\ (Broken = "norecheck" \/ t \notin inact) THEN @ \cup {t} ELSE @]
         /\ UNCHANGED <<now, tk, tix, inact, asg, mt, done, ok, left>>
Offer == /\ snap.st = "range" /\ snap.todo = {}
         /\ snap' = NoSnap
         /\ ok' = (ok /\ \A t \in Tix : There(t) => /\ t \in snap.got => MayOffer(F(snap.w), tk[t], snap.a, now)
                                                    /\ MustOffer(F(snap.w), tk[t], snap.a, now) => t \in snap.got)
         /\ UNCHANGED <<now, tk, tix, inact, asg, mt, done, left>>

Next == \/ \E t \in Tix : Create(t) \/ Change(t, TRUE) \/ Change(t, FALSE) \/ Assign(t)
        \/ Begin \/ Marks \/ Tickets \/ Asgs \/ Tick \/ Copy \/ Range \/ Visit \/ Offer
Spec == Init /\ [][Next]_vars

Pools == ok
Held == \A t \in Tix : There(t) =>
          /\ t \in asg => MayAnswer(F(done), tk[t], now, now)
          /\ MustAnswer(F(done), tk[t], now, now, 0) => t \in asg
          /\ t \in tix => MayHold(F(done), tk[t], now, now)
          /\ MustHold(F(done), tk[t], now, now) => t \in tix
          /\ t \in inact => MayMark(F(done), tk[t], now, now)
          /\ MustMark(F(done), tk[t], now, now) => t \in inact
=============================================================================
