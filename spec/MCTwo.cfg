SPECIFICATION Spec
CONSTANTS
  Inst = {"A", "B"}
  MaxTickets = 1
  MaxUpdates = 2
  MaxCallLen = 1
  BatchSize = 1
  PollSize = 2
  MaxFaults = 0
  MaxKills = 1
  MaxInv = 0
  MaxMatches = 0
  Fns <- NoFns
  Wait = FALSE
  MayCancel = FALSE
  Variant = {}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
