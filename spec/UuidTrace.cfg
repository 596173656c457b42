SPECIFICATION TraceSpec

POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  HB = 8
  HD = 11
  MVals = {}
