------------------------------ MODULE MCGateway ------------------------------
(***************************************************************************)
(* The proxy between a caller by HTTP and the gRPC server: it decodes the  *)
(* body, makes the call, and passes on each result as it comes, the status *)
(* being fixed with the first.  A server may wait with its next result     *)
(* until the caller has seen the last (Patient), as two players do who     *)
(* wait for each other.                                                    *)
(*                                                                         *)
(* Broken: "buffer" passes results on when the stream has ended; "late"    *)
(* flushes a result with the next one; "ok" answers 200 whatever happened; *)
(* "mid" sets the error's status also after results; "swallow" ends a      *)
(* failed stream like one that succeeded; "body" takes what cannot be      *)
(* decoded for an empty message; "array" sends all results as one.         *)
(***************************************************************************)
EXTENDS Gateway, TLC

CONSTANTS Most, Codes, Names, Broken

VARIABLES name, good, patient, srv, pass, out, cli
\* good: the body can be decoded; srv: [st, n, code]: results made; pass: results taken by the proxy and
\* not passed on;  out: [status, frames, code, end]: what has been written;  cli: results the caller has seen
vars == <<name, good, patient, srv, pass, out, cli>>

Init == /\ name \in Names /\ good \in BOOLEAN /\ patient \in BOOLEAN
        /\ srv = [st |-> "new", n |-> 0, code |-> "OK"] /\ pass = <<>>
        /\ out = [status |-> 0, frames |-> <<>>, code |-> "OK", end |-> FALSE] /\ cli = 0

Stream == Route[name].stream
Refuse == /\ srv.st = "new" /\ ~good /\ Broken # "body"
          /\ srv' = [srv EXCEPT !.st = "never"]
          /\ out' = [out EXCEPT !.status = IF Broken = "ok" THEN 200 ELSE HttpOf["InvalidArgument"], !.code = "InvalidArgument", !.end = TRUE]
          /\ UNCHANGED <<name, good, patient, pass, cli>>
Call == /\ srv.st = "new" /\ (good \/ Broken = "body") /\ srv' = [srv EXCEPT !.st = "run"]
        /\ UNCHANGED <<name, good, patient, pass, out, cli>>
Result == /\ srv.st = "run" /\ srv.n < (IF Stream THEN Most ELSE 1)
          /\ patient => cli = srv.n
          /\ srv' = [srv EXCEPT !.n = @ + 1] /\ pass' = Append(pass, srv.n + 1)
          /\ UNCHANGED <<name, good, patient, out, cli>>
End(c) == /\ srv.st = "run"
          \* a call that does not stream gives a result if and only if it succeeds
          /\ Stream \/ (c = "OK" <=> srv.n = 1)
          /\ srv' = [srv EXCEPT !.st = "done", !.code = c] /\ UNCHANGED <<name, good, patient, pass, out, cli>>
Ready == pass # <<>> /\ CASE Broken = "buffer" \/ Broken = "array" -> srv.st = "done"
                          [] Broken = "late" -> Len(pass) > 1 \/ srv.st = "done"
                          [] OTHER -> TRUE
Pass == /\ Ready /\ srv.st \in {"run", "done"}
        /\ out' = [out EXCEPT !.status = IF @ = 0 THEN 200 ELSE @,
                              !.frames = IF Broken = "array" THEN Append(@, pass) ELSE Append(@, <<pass[1]>>)]
        /\ pass' = IF Broken = "array" THEN <<>> ELSE Tail(pass)
        /\ UNCHANGED <<name, good, patient, srv, cli>>
Finish == /\ srv.st = "done" /\ pass = <<>> /\ ~out.end
          /\ LET c == IF Broken = "swallow" THEN "OK" ELSE srv.code
             IN out' = [out EXCEPT !.end = TRUE, !.code = c,
                          !.status = CASE Broken = "ok" -> 200 [] Broken = "mid" -> HttpOf[c] [] @ = 0 -> HttpOf[c] [] OTHER -> @]
          /\ UNCHANGED <<name, good, patient, srv, pass, cli>>
See == /\ cli < Len(out.frames) /\ cli' = cli + 1 /\ UNCHANGED <<name, good, patient, srv, pass, out>>
Over == out.end /\ cli = Len(out.frames) /\ UNCHANGED vars
Next == Refuse \/ Call \/ Result \/ (\E c \in Codes : End(c)) \/ Pass \/ Finish \/ See \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Status == out.end => Legal(name, out.status, out.code, Len(out.frames))
\* Every result on its own, in order; the outcome is the server's.
Frames == /\ \A k \in DOMAIN out.frames : out.frames[k] = <<k>>
          /\ out.end /\ srv.st = "done" => Len(out.frames) = srv.n /\ out.code = srv.code
Refused == ~good => srv.st \in {"new", "never"}
\* A patient server never waits for results that the proxy keeps: only its own next step, or the caller's,
\* is outstanding when nothing is to be passed on.
NotKept == srv.st = "run" /\ pass # <<>> => Ready
=============================================================================
