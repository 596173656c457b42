SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4,5,6}
VIEW SView
ACTION_CONSTRAINT Emit
