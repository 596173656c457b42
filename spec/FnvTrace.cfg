SPECIFICATION TraceSpec
CONSTANTS MTexts = {} MInits = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
