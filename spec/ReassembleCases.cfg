SPECIFICATION GSpec
CONSTANTS
 Pools = {"p", "q"}
 MaxChunks = 3
 Shapes = {100, 101, 0, 2}
 Broken = "no"
PROPERTY Fine
CHECK_DEADLOCK FALSE
