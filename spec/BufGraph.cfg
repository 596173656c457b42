SPECIFICATION Spec
CONSTANTS NB = 2 Bytes = {1} MaxLen = 3 MaxRoom = 2
VIEW GView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
