SPECIFICATION Spec
CONSTANTS MSizes <- MSizesSmall MNums <- MNumsSmall
ACTION_CONSTRAINT Emit
VIEW GView
CHECK_DEADLOCK FALSE
