SPECIFICATION Spec
CONSTANTS
  Who = "front"
  Tickets = 9
  Cycles = 0
  Most = 2
  Cap = 4
  Big = TRUE
  Broken = ""
INVARIANT Good
