SPECIFICATION TraceSpec
CONSTANTS MSizes = {} MNums = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
