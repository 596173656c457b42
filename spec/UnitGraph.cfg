SPECIFICATION Spec
CONSTANTS
  MNames <- MNamesSmall
  MProgs <- MProgsSmall
  MArgs <- MArgsSmall
  MMaxSuites = 2
  MMaxTests = 1
VIEW GView
CONSTRAINT Fits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
