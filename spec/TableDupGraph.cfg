SPECIFICATION Spec
CONSTANTS Keys = {1,2} Vals = {1,2} MaxDup = 2 Dups <- DupsDup
VIEW View
CONSTRAINT BoundOne
ACTION_CONSTRAINT Emit
