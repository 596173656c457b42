SPECIFICATION Spec
CONSTANT MStr <- MStrGraph
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
