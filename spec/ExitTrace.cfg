SPECIFICATION TraceSpec
CONSTANTS MFns = {} MKids = {} MMax = 0 MLate = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
