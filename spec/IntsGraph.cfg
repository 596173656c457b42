SPECIFICATION Spec
CONSTANTS
  MRows <- MRowsAll
  MWide <- MWideAll
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
