SPECIFICATION Spec
CONSTANTS NI = 2 NO = 1 K = 2 Early = 0 Safe = TRUE
INVARIANTS Good NoStuck AllDone
PROPERTIES Ends
