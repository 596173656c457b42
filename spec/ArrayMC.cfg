SPECIFICATION Spec
CONSTANTS NA = 2 Sizes = {1,2} Bytes = {0,1} MaxLen = 2
VIEW View
INVARIANTS WellFormed
PROPERTIES KeepsPrefix Others
