SPECIFICATION Spec
CONSTANTS
 Pools = {"p", "q"}
 MaxChunks = 3
 Shapes = {100, 0, 1, 2}
 Broken = "front"
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
