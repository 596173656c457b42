SPECIFICATION TraceSpec
CONSTANTS Keys = {}
INVARIANT Balanced
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
