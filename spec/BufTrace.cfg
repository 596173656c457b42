SPECIFICATION TraceSpec
CONSTANTS NB = 2 Bytes = {} MaxLen = 0 MaxRoom = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
