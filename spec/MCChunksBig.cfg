SPECIFICATION Spec
CONSTANTS
 Pools = {"p", "q"}
 Tickets = {1, 2, 3, 4}
 Sizes = {1, 4}
 Empty = 2
 Max = 6
 Send = 8
 Grow = 1
 Broken = "no"
INVARIANTS Fits Right
CHECK_DEADLOCK FALSE
