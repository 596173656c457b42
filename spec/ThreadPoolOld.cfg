SPECIFICATION Spec
CONSTANTS NI = 1 NO = 1 K = 1 Early = 0 Safe = FALSE
VIEW View
INVARIANTS Good NoStuck AllDone
