SPECIFICATION GSpec
CONSTANTS MCHeaps = {} MCShows <- SomeShows MCPools = {1} NP = 6 Confs <- AllConfs MaxElt = 2 MaxPages = 2 Sizes <- TwoGroups
VIEW GView
CONSTRAINT GBound
ACTION_CONSTRAINT Emit
