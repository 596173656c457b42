SPECIFICATION TraceSpec
CONSTANTS Faults = {{}} Fds = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
