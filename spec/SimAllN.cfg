SPECIFICATION Spec
CONSTANTS
  Inst = {"A", "B"}
  MaxTickets = 3
  MaxUpdates = 4
  MaxCallLen = 2
  BatchSize = 2
  PollSize = 3
  MaxFaults = 2
  MaxKills = 1
  MaxInv = 2
  MaxMatches = 3
  Fns <- TwoFns
  Wait = FALSE
  MayCancel = TRUE
  Variant = {}
INVARIANTS NoRuleBroken CacheIsPrefix HistAgrees Converged Bounds Acked
CHECK_DEADLOCK FALSE
