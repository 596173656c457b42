SPECIFICATION Spec
CONSTANTS
  MStr <- MStrSmall
  MIdx <- MIdxSmall
  MPat <- MPatSmall
  MText <- MTextSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
