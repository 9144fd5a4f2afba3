SPECIFICATION Spec
INVARIANT Report
VIEW Where
CHECK_DEADLOCK FALSE
