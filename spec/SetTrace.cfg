SPECIFICATION TraceSpec
CONSTANTS Elems = {} N = 3
PROPERTIES OperandsKept
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
