SPECIFICATION Spec
CONSTANTS N = 1 Sizes <- One MaxHist = 2 Kinds = {"table", "set", "buf", "array", "ptrs", "bstream", "cfg", "log", "pool", "group", "heap", "ez", "ipv4", "list", "unit", "lock"} CallNames = {"sub", "dup", "cat", "catv", "reverse", "map", "append", "split", "cut", "tok", "strprintf", "longprintf", "encode", "decode", "uuid", "int2ip", "str2net", "badnet", "opterror", "progpath", "osprogpath", "optstring", "optarray", "optbad", "optusage", "basedir", "nobasedir", "mkdir", "exists", "writepid", "time", "cputs"}
VIEW View
ACTION_CONSTRAINT Emit
