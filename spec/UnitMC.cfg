SPECIFICATION Spec
CONSTANTS
  MNames <- MNamesSmall
  MProgs <- MProgsSmall
  MArgs <- MArgsSmall
  MMaxSuites = 2
  MMaxTests = 1
VIEW View
CONSTRAINT Fits
INVARIANT Laws
PROPERTY Steps
CHECK_DEADLOCK FALSE
