SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 1
  MaxUpdates = 1
  MaxCallLen = 1
  BatchSize = 2
  PollSize = 1
  MaxFaults = 0
  MaxKills = 0
  MaxInv = 1
  MaxMatches = 1
  Fns <- ErrFn
  Wait = FALSE
  MayCancel = FALSE
  Variant = {"nodrain"}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
