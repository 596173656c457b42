SPECIFICATION Spec
CONSTANTS Vals = {10,11,20} N = 2 MaxLen = 3
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
