SPECIFICATION Spec
CONSTANTS
  MNames = {}
  MPaths <- MPathsUsed
  MTriggers <- MTriggersSmall
  MMax = 4
VIEW View
INVARIANT Laws
PROPERTY Steps
CHECK_DEADLOCK FALSE
