SPECIFICATION TraceSpec
CONSTANTS NH = 4 MDests = {} MOpts = {} MLevels = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
