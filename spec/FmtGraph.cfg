SPECIFICATION Spec
CONSTANTS
  MFlags <- MFlagsSmall
  MWidths <- MWidthsSmall
  MPrecs <- MPrecsSmall
  MInts <- MIntsSmall
  MStrs <- MStrsSmall
  MFracs <- MFracsSmall
  MTexts <- MTextsSmall
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
