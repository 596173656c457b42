SPECIFICATION TraceSpec
CONSTANTS Keys = {} Texts = {} MaxSets = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
