SPECIFICATION TraceSpec
CONSTANTS MVals = {} MBits = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
