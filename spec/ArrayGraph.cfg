SPECIFICATION Spec
CONSTANTS NA = 2 Sizes = {1} Bytes = {1} MaxLen = 3
VIEW View
ACTION_CONSTRAINT Emit
