SPECIFICATION Spec
CONSTANTS Faults <- AllFaults Fds = {0, 1, 2, 5}
INVARIANTS Kept One After
PROPERTY Ends
CHECK_DEADLOCK FALSE
