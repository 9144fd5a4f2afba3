SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 1
  MaxUpdates = 2
  MaxCallLen = 1
  BatchSize = 2
  PollSize = 1
  MaxFaults = 1
  MaxKills = 0
  MaxInv = 1
  MaxMatches = 1
  Fns <- OneFn
  Wait = TRUE
  MayCancel = FALSE
  Variant = {}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
