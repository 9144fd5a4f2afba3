SPECIFICATION Spec
CONSTANTS
  Who = "front"
  Tickets = 6
  Cycles = 0
  Most = 2
  Cap = 3
  Big = FALSE
  Broken = ""
INVARIANT Good
