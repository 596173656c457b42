SPECIFICATION Spec
CONSTANTS NS = 2 Bytes = {1,2} MaxLen = 3
VIEW View
CONSTRAINT Bound
INVARIANTS Inside
PROPERTIES ReadBack WriteKeeps Others
