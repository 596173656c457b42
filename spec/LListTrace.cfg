SPECIFICATION TraceSpec
CONSTANTS Vals = {} N = 2 MaxLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
