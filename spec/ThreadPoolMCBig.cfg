SPECIFICATION Spec
CONSTANTS NI = 2 NO = 2 K = 3 Early = 1 Safe = TRUE
VIEW View
INVARIANTS Good NoStuck AllDone NoneAsleep
