SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 2
  MaxUpdates = 1
  MaxCallLen = 2
  BatchSize = 2
  PollSize = 2
  MaxFaults = 1
  MaxKills = 1
  MaxInv = 0
  MaxMatches = 0
  Fns <- NoFns
  Wait = FALSE
  MayCancel = FALSE
  Variant = {}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
