SPECIFICATION GSpec
CONSTANTS MFns = {0, 1} MKids <- MKidsSmall MMax = 3 MLate = 1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
