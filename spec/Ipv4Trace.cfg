SPECIFICATION TraceSpec
CONSTANTS W = 32 NT = 3 MaxNet = 0
PROPERTIES Answer
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
