SPECIFICATION TraceSpec
CONSTANTS Elems = {} N = 2
INVARIANT NoDup
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
