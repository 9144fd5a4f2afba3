SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 2
  MaxUpdates = 1
  MaxCallLen = 2
  BatchSize = 2
  PollSize = 1
  MaxFaults = 0
  MaxKills = 0
  MaxInv = 1
  MaxMatches = 1
  Fns <- OneFn
  Wait = TRUE
  MayCancel = FALSE
  Variant = {"waitfirst"}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
