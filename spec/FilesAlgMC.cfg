SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Paths <- MPaths
  MaxRefused = 2
INVARIANTS Said Tree Only
PROPERTY Ends
CHECK_DEADLOCK FALSE
