SPECIFICATION Spec
CONSTANTS MCHeaps = {} MCShows = {} MCPools = {1,2} NP = 6 Confs <- AllConfs MaxElt = 3 MaxPages = 2 Sizes = {}
VIEW View
CONSTRAINT Bound
INVARIANTS Disjoint Fit Balance AddsUp
PROPERTIES NoPageLost KeepElements NeverFree Aside
