SPECIFICATION TraceSpec
CONSTANTS MTabs = {} MVals = {} MItems = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
