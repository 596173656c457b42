SPECIFICATION TraceSpec
CONSTANTS Keys = {} Vals = {} MaxDup = 0 Dups = {}
INVARIANT TraceUnique
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
