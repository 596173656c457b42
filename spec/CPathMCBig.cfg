SPECIFICATION Spec
CONSTANT MStr <- MStrBig
INVARIANT Laws
CHECK_DEADLOCK FALSE
