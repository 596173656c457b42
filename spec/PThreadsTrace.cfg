SPECIFICATION TraceSpec
CONSTANTS Threads = {1, 2, 3, 4, 5, 6} Locks = {1, 2, 3, 4} Conds = {1, 2, 3, 4} MVals = {} PENDING = 99
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
