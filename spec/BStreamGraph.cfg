SPECIFICATION Spec
CONSTANTS NS = 2 Bytes = {1} MaxLen = 3
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
