SPECIFICATION Spec
CONSTANTS W = 2 NT = 1 MaxNet = 3
VIEW View
ACTION_CONSTRAINT Emit
