SPECIFICATION TraceSpec
CONSTANTS MNames = {} MProgs = {} MEnvs = {} MCwds = {} MFiles = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
