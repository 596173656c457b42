SPECIFICATION TraceSpec
CONSTANTS MBytes = {} MLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
