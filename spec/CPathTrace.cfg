SPECIFICATION TraceSpec
CONSTANT MStr = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
