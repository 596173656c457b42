SPECIFICATION Spec
CONSTANTS
  MStr <- MStrGraph
  MIdx <- MIdxGraph
  MPat <- MPatGraph
  MText <- MTextGraph
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
