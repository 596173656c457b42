SPECIFICATION Spec
CONSTANTS MBytes = {0, 1, 61, 65, 255} MLen = 4
VIEW View
INVARIANTS RoundTrip InAlphabet Canon
