SPECIFICATION Spec
CONSTANTS
  MTexts <- MTextsSmall
  MInits <- MInitsSmall
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
