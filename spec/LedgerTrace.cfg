SPECIFICATION TraceSpec
CONSTANTS N = 5 Sizes = {} MaxHist = 0 Kinds = {} CallNames = {"sub", "dup", "cat", "catv", "reverse", "map", "append", "split", "cut", "tok", "strprintf", "longprintf", "encode", "decode", "uuid", "int2ip", "str2net", "badnet", "opterror", "progpath", "osprogpath", "optstring", "optarray", "optbad", "optusage", "basedir", "nobasedir", "mkdir", "exists", "writepid", "time", "cputs"}
VIEW TView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
