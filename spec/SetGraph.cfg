SPECIFICATION Spec
CONSTANTS Elems = {0,1} N = 3
VIEW View
ACTION_CONSTRAINT Emit
