SPECIFICATION Spec
CONSTANTS NP = 2 Vals = {1,2} MaxLen = 4
VIEW View
CONSTRAINT Bound
INVARIANTS NoNull
PROPERTIES RelStored
