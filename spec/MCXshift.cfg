SPECIFICATION Spec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 1
  MaxUpdates = 2
  MaxCallLen = 2
  BatchSize = 2
  PollSize = 1
  MaxFaults = 1
  MaxKills = 0
  MaxInv = 0
  MaxMatches = 0
  Fns <- NoFns
  Wait = FALSE
  MayCancel = FALSE
  Variant = {"shifted"}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
