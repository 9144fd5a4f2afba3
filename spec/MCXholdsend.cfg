SPECIFICATION Spec
CONSTANTS
  Watches = {w1, w2}
  Invs = {i1}
  N = 2
  Broken = "send"
PROPERTIES LetsGo StaysGone
CHECK_DEADLOCK FALSE
