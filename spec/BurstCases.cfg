SPECIFICATION Spec
CONSTANT Longest = 5
PROPERTY Fine
CHECK_DEADLOCK FALSE
