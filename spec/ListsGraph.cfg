SPECIFICATION Spec
CONSTANTS Elems = {1,2,3} N = 2
VIEW View
ACTION_CONSTRAINT Emit
