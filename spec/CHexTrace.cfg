SPECIFICATION TraceSpec
CONSTANTS MData = {} MTexts = {} MNum = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
