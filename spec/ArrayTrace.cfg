SPECIFICATION TraceSpec
CONSTANTS NA = 2 Sizes = {} Bytes = {} MaxLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
