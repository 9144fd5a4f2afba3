SPECIFICATION Spec
CONSTANTS
  Who = "main"
  Tickets = 0
  Cycles = 3
  Most = 2
  Cap = 3
  Big = TRUE
  Broken = ""
INVARIANT Good
