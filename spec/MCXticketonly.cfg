SPECIFICATION Spec
CONSTANTS
  Tix = {1}
  MaxTime = 8
  TTL = 2
  Add = 2
  D = 1
  Changes = 3
  Broken = "ticketonly"
INVARIANTS Pools Held
CHECK_DEADLOCK FALSE
