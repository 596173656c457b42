SPECIFICATION TraceSpec
CONSTANTS MStr = {} MIdx = {} MPat = {} MText = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
