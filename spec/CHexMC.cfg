SPECIFICATION Spec
CONSTANTS
  MData <- MDataSmall
  MTexts <- MTextsSmall
  MNum <- MNumSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
