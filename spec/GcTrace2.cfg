SPECIFICATION TraceSpec
CONSTANTS Obj = {1,2}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
