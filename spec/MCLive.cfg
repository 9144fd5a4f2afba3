SPECIFICATION LiveSpec
CONSTANTS
  Inst = {"A"}
  MaxTickets = 1
  MaxUpdates = 1
  MaxCallLen = 1
  BatchSize = 1
  PollSize = 1
  MaxFaults = 0
  MaxKills = 0
  MaxInv = 1
  MaxMatches = 1
  Fns <- OneFn
  Wait = FALSE
  MayCancel = FALSE
  Variant = {}
PROPERTY Progress
CHECK_DEADLOCK FALSE
