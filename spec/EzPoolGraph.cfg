SPECIFICATION Spec
CONSTANTS MaxPools = 4 MaxChunks = 1
VIEW View
ACTION_CONSTRAINT Emit
