SPECIFICATION TraceSpec
CONSTANTS MCHeaps = {} MCShows = {} MCPools = {1,2} NP = 6 Confs = {} MaxElt = 0 MaxPages = 0 Sizes = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
