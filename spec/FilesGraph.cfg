SPECIFICATION Spec
CONSTANTS
  MNames = {}
  MPaths <- MPathsUsed
  MTriggers <- MTriggersSmall
  MMax = 3
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
