SPECIFICATION TraceSpec
CONSTANTS NS = 2 Bytes = {} MaxLen = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
