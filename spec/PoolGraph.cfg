SPECIFICATION Spec
CONSTANTS MCHeaps = {1} MCShows <- SomeShows MCPools = {1} NP = 6 Confs <- AllConfs MaxElt = 4 MaxPages = 2 Sizes = {}
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT Emit
