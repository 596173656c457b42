SPECIFICATION Spec
CONSTANTS
  MStr <- MStrBig
  MIdx <- MIdxBig
  MPat <- MPatBig
  MText <- MTextBig
INVARIANT Laws
CHECK_DEADLOCK FALSE
