SPECIFICATION TraceSpec
CONSTANTS
  NN = 624
  MM = 397
  NC = 3
  MaxDraws = 0
  Time <- TimeWord
  MSeeds = {}
  MKeys = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
