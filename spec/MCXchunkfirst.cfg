SPECIFICATION Spec
CONSTANTS
 Pools = {"p", "q"}
 Tickets = {1, 2, 3}
 Sizes = {1, 2, 4}
 Empty = 2
 Max = 6
 Send = 8
 Grow = 1
 Broken = "first"
INVARIANTS Fits Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
