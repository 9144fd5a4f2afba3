SPECIFICATION Spec
CONSTANTS Calls = 1 Watches = 1 Streams = 2 Most = 2 Ids = 2 Matches = 2 Names = {"f", "g"} Broken = "leaktimeout"
INVARIANTS Right NoneLeft Never
CHECK_DEADLOCK FALSE
