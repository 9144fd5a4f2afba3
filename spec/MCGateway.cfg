SPECIFICATION Spec
CONSTANTS Most = 4 Codes = {"OK", "Internal", "InvalidArgument", "Canceled", "Unknown", "ResourceExhausted"} Names = {"CreateTicket", "InvokeMatchmakingFunctions"} Broken = "none"
INVARIANTS Status Frames Refused NotKept
CHECK_DEADLOCK TRUE
