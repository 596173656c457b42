SPECIFICATION TraceSpec
CONSTANTS Obj <- ManyObj
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
