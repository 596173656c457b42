SPECIFICATION TraceSpec
CONSTANTS MSecs = {} MMicros = {} MCounts = {} MCosts = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
