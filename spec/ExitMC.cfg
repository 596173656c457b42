SPECIFICATION Spec
CONSTANTS MFns = {0, 1} MKids <- MKidsSmall MMax = 3 MLate = 2
INVARIANTS Laws Newest
PROPERTIES Finishes Steps
CHECK_DEADLOCK FALSE
