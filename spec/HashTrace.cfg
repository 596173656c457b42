SPECIFICATION TraceSpec
CONSTANTS NC = 3 Pieces = {} MLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
