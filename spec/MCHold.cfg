SPECIFICATION Spec
CONSTANTS
  Watches = {w1, w2}
  Invs = {i1}
  N = 2
  Broken = "none"
PROPERTIES LetsGo StaysGone
CHECK_DEADLOCK FALSE
