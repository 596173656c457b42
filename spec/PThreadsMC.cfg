SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Locks = {1} Conds = {1} MVals = {0, 5} PENDING = 99
INVARIANTS Quiet Holder
PROPERTIES Handed Woken
VIEW View
CHECK_DEADLOCK FALSE
