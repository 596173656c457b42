SPECIFICATION GSpec
CONSTANTS MCHeaps = {1} MCShows <- SomeShows MCPools = {1,2} NP = 6 Confs <- AllConfs MaxElt = 3 MaxPages = 2 Sizes <- TwoGroups
VIEW View
CONSTRAINT Bound
INVARIANTS Disjoint Fit Balance AddsUp
PROPERTIES NoPageLost KeepElements NeverFree Aside
