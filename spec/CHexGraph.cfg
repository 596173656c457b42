SPECIFICATION Spec
CONSTANTS
  MData <- MDataSmall
  MTexts <- MTextsSmall
  MNum <- MNumSmall
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
