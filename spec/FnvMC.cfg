SPECIFICATION Spec
CONSTANTS
  MTexts <- MTextsSmall
  MInits <- MInitsSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
