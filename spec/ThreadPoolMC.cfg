SPECIFICATION Spec
CONSTANTS NI = 2 NO = 1 K = 3 Early = 1 Safe = TRUE
VIEW View
INVARIANTS Good NoStuck AllDone NoneAsleep
