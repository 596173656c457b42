SPECIFICATION Spec
CONSTANTS
  MRows <- MRowsAll
  MWide <- MWideAll
INVARIANT Laws
CHECK_DEADLOCK FALSE
