SPECIFICATION Spec
INVARIANT Rule
CHECK_DEADLOCK FALSE
