SPECIFICATION TraceSpec
CONSTANTS NP = 2 Vals = {} MaxLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
