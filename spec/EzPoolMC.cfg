SPECIFICATION Spec
CONSTANTS MaxPools = 4 MaxChunks = 3
VIEW View
INVARIANTS Owned Rooted
PROPERTIES OnlyDestroyFrees SparesOthers
