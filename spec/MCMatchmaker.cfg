SPECIFICATION Spec
CONSTANTS
  Who = "main"
  Tickets = 0
  Cycles = 2
  Most = 2
  Cap = 3
  Big = FALSE
  Broken = ""
INVARIANT Good
