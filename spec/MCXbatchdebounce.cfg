SPECIFICATION Spec
CONSTANTS
  Updates = 4
  MaxTime = 9
  Most = 4
  Wait = 2
  MaxWrite = 2
  Broken = "debounce"
INVARIANTS Sizes Order Times Pending
CHECK_DEADLOCK FALSE
