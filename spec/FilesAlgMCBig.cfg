SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Paths <- MPaths
  MaxRefused = 1
INVARIANTS Said Tree Only
PROPERTY Ends
CHECK_DEADLOCK FALSE
