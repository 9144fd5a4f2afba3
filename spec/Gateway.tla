------------------------------- MODULE Gateway -------------------------------
(***************************************************************************)
(* The HTTP/JSON face of the API.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* How each RPC is called (proto/v2/api.yaml), and whether it streams its results.
Route == [ CreateTicket               |-> [verb |-> "POST",   path |-> "/v2/tickets",            stream |-> FALSE],
           DeactivateTickets          |-> [verb |-> "DELETE", path |-> "/v2/tickets:deactivate", stream |-> FALSE],
           ActivateTickets            |-> [verb |-> "POST",   path |-> "/v2/tickets:activate",   stream |-> FALSE],
           InvokeMatchmakingFunctions |-> [verb |-> "POST",   path |-> "/v2/matches:fetch",      stream |-> TRUE],
           CreateAssignments          |-> [verb |-> "POST",   path |-> "/v2/assignments:create", stream |-> FALSE],
           WatchAssignments           |-> [verb |-> "POST",   path |-> "/v2/assignments:watch",  stream |-> TRUE] ]

\* The HTTP status that corresponds to a gRPC code (google.rpc.Code).
HttpOf == [ OK |-> 200, Canceled |-> 499, Unknown |-> 500, InvalidArgument |-> 400, DeadlineExceeded |-> 504,
            NotFound |-> 404, AlreadyExists |-> 409, PermissionDenied |-> 403, Unauthenticated |-> 401,
            ResourceExhausted |-> 429, FailedPrecondition |-> 400, Aborted |-> 409, OutOfRange |-> 400,
            Unimplemented |-> 501, Internal |-> 500, Unavailable |-> 503, DataLoss |-> 500 ]

\* What may come back: a status, a code, and the number of results before that.
\* Once a result has been sent, the status has been, too.
Legal(name, status, code, results) ==
  IF Route[name].stream
  THEN status = (IF results > 0 THEN 200 ELSE HttpOf[code])
  ELSE /\ status = HttpOf[code]
       /\ results = (IF code = "OK" THEN 1 ELSE 0)
=============================================================================
