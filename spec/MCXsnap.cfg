SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 2
  MaxUpdates = 1
  MaxCallLen = 1
  BatchSize = 1
  PollSize = 2
  MaxFaults = 0
  MaxKills = 0
  MaxInv = 1
  MaxMatches = 0
  Fns <- OneFn
  Wait = FALSE
  MayCancel = FALSE
  Variant = {"norecheck"}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
