SPECIFICATION TraceSpec
CONSTANTS MNames = {} MPaths = {} MTriggers = {} MMax = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
