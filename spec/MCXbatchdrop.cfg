SPECIFICATION Spec
CONSTANTS
  Updates = 4
  MaxTime = 9
  Most = 2
  Wait = 2
  MaxWrite = 2
  Broken = "drop"
INVARIANTS Sizes Order Times Pending
CHECK_DEADLOCK FALSE
