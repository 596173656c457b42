SPECIFICATION Spec
CONSTANTS NP = 1 Vals = {1,2} MaxLen = 4
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
