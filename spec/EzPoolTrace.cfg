SPECIFICATION TraceSpec
CONSTANTS MaxPools = 0 MaxChunks = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
