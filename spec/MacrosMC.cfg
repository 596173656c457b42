SPECIFICATION Spec
CONSTANTS MVals <- MValsSmall MBits <- MBitsSmall
INVARIANT Laws
CHECK_DEADLOCK FALSE
