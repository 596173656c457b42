SPECIFICATION TraceSpec
CONSTANTS MFlags = {} MWidths = {} MPrecs = {} MInts = {} MStrs = {} MFracs = {} MTexts = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
