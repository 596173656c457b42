SPECIFICATION Spec
CONSTANTS NI = 1 NO = 1 K = 2 Early = 0 Safe = TRUE
VIEW GView
ACTION_CONSTRAINT Emit
