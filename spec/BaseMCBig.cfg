SPECIFICATION Spec
CONSTANTS MBytes = {0, 1, 10, 52, 61, 65, 127, 128, 255} MLen = 5
VIEW View
INVARIANTS RoundTrip InAlphabet Canon
