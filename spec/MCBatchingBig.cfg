SPECIFICATION Spec
CONSTANTS
  Updates = 6
  MaxTime = 12
  Most = 3
  Wait = 3
  MaxWrite = 2
  Broken = ""
INVARIANTS Sizes Order Times Pending
CHECK_DEADLOCK FALSE
