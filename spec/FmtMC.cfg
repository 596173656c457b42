SPECIFICATION Spec
CONSTANTS
  MFlags <- MFlagsSmall
  MWidths <- MWidthsSmall
  MPrecs <- MPrecsSmall
  MInts <- MIntsSmall
  MStrs <- MStrsSmall
  MFracs <- MFracsSmall
  MTexts <- MTextsSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
