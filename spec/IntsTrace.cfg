SPECIFICATION TraceSpec
CONSTANTS MRows = {} MWide = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
