------------------------------- MODULE MCHold -------------------------------
(***************************************************************************)
(* What a server holds for its calls, and that it lets go of it.  A watch  *)
(* has one poller per listed ticket, an invocation one receiver per        *)
(* function, which hand what they got to the call's sender.  A call ends   *)
(* when all have been heard, or when its caller gives up (watch), or when  *)
(* all functions are done (invocation, whose caller may have gone long     *)
(* before).  Whatever happens, a server that is asked nothing more comes   *)
(* to rest, holding nothing.                                               *)
(*                                                                         *)
(* Broken designs: "watch" (pollers wait for their ticket only), "send"    *)
(* (the sender of an invocation leaves when its caller has gone).          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Watches, Invs, N, Broken
VARIABLES st,     \* call :> "new", "open", "over"
          gone,   \* calls whose callers have given up
          work,   \* workers: [c, k, st] with st "wait" (for the ticket, for the function), "give" (has something to hand over)
          sender, \* calls with a sender
          asgd    \* tickets that have got an assignment
vars == <<st, gone, work, sender, asgd>>
Calls == Watches \cup Invs
W(c) == {w \in work : w.c = c}

Init == st = [c \in Calls |-> "new"] /\ gone = {} /\ work = {} /\ sender = {} /\ asgd = {}
Begin(c) == /\ st[c] = "new"
            /\ st' = [st EXCEPT ![c] = "open"]
            /\ work' = work \cup {[c |-> c, k |-> k, st |-> "wait"] : k \in 1..N}
            /\ sender' = sender \cup {c}
            /\ UNCHANGED <<gone, asgd>>
GiveUp(c) == st[c] = "open" /\ c \notin gone /\ gone' = gone \cup {c} /\ UNCHANGED <<st, work, sender, asgd>>
Assign(k) == k \notin asgd /\ asgd' = asgd \cup {k} /\ UNCHANGED <<st, gone, work, sender>>
\* A worker has something.
Ready(w) == /\ w.st = "wait"
            /\ w.c \in Watches => w.k \in asgd
            /\ work' = (work \ {w}) \cup {[w EXCEPT !.st = "give"]}
            /\ UNCHANGED <<st, gone, sender, asgd>>
\* It is handed to the sender.
Give(w) == /\ w.st = "give" /\ w.c \in sender
           /\ work' = work \ {w} /\ UNCHANGED <<st, gone, sender, asgd>>
\* A worker of a watch that is over leaves.
Leave(w) == /\ w.c \in Watches /\ st[w.c] = "over" /\ Broken # "watch"
            /\ work' = work \ {w} /\ UNCHANGED <<st, gone, sender, asgd>>
\* A function may fail: its receiver ends.
Fail(w) == w.c \in Invs /\ w.st = "wait" /\ work' = work \ {w} /\ UNCHANGED <<st, gone, sender, asgd>>
End(c) == /\ st[c] = "open"
          /\ W(c) = {} \/ (c \in Watches /\ c \in gone)
          /\ st' = [st EXCEPT ![c] = "over"] /\ sender' = sender \ {c} /\ UNCHANGED <<gone, work, asgd>>
\* The lifetime of the tickets is over: so is the watch.
Expire(c) == c \in Watches /\ st[c] = "open" /\ st' = [st EXCEPT ![c] = "over"] /\ sender' = sender \ {c} /\ UNCHANGED <<gone, work, asgd>>
SenderLeaves(c) == /\ Broken = "send" /\ c \in Invs /\ c \in gone /\ c \in sender
                   /\ sender' = sender \ {c} /\ UNCHANGED <<st, gone, work, asgd>>
Next == \/ \E c \in Calls : Begin(c) \/ GiveUp(c) \/ End(c) \/ Expire(c) \/ SenderLeaves(c)
        \/ \E k \in 1..N : Assign(k)
        \/ \E w \in work : Ready(w) \/ Give(w) \/ Leave(w) \/ Fail(w)
Fair == /\ \A c \in Calls : WF_vars(End(c)) /\ WF_vars(Expire(c))
        /\ \A c \in Calls, k \in 1..N, s \in {"wait", "give"} :
             LET w == [c |-> c, k |-> k, st |-> s]
             IN WF_vars(w \in work /\ (Give(w) \/ Leave(w))) /\ (c \in Invs => WF_vars(w \in work /\ Ready(w)))
Spec == Init /\ [][Next]_vars /\ Fair

Rest(c) == st[c] = "over" /\ W(c) = {} /\ c \notin sender
\* Every call that has begun ends, and nothing is left of it.
LetsGo == \A c \in Calls : st[c] = "open" ~> Rest(c)
StaysGone == \A c \in Calls : [](Rest(c) => [](Rest(c)))
=============================================================================
