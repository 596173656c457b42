SPECIFICATION TraceSpec
CONSTANTS MNames = {} MProgs = {} MArgs = {} MMaxSuites = 0 MMaxTests = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
