SPECIFICATION Spec
CONSTANTS Calls = 2 Watches = 2 Streams = 0 Most = 2 Ids = 2 Matches = 2 Names = {"f", "g"} Broken = "none"
INVARIANTS Right NoneLeft Never
CHECK_DEADLOCK FALSE
