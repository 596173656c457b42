SPECIFICATION Spec
CONSTANTS NI = 2 NO = 0 K = 2 Early = 0 Safe = TRUE
VIEW GView
ACTION_CONSTRAINT Emit
