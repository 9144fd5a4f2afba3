SPECIFICATION Spec
CONSTANTS
 Broken = "no"
 MaxSize = 11
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
