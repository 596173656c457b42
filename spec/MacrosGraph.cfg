SPECIFICATION Spec
CONSTANTS MVals <- MValsSmall MBits <- MBitsSmall
ACTION_CONSTRAINT Emit
VIEW GView
CHECK_DEADLOCK FALSE
