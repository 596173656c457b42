SPECIFICATION Spec
CONSTANT MStr <- MStrSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
