SPECIFICATION Spec
CONSTANTS
  Tix = {1}
  MaxTime = 8
  TTL = 2
  Add = 2
  D = 1
  Changes = 3
  Broken = "markonly"
INVARIANTS Pools Held
CHECK_DEADLOCK FALSE
