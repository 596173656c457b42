SPECIFICATION Spec
CONSTANTS MSizes <- MSizesSmall MNums <- MNumsSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
