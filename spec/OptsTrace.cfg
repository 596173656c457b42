SPECIFICATION TraceSpec
CONSTANTS Args = {} MaxArgs = 0 TheDefs = 0
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
