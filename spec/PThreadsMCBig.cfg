SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4} Locks = {1, 2} Conds = {1, 2} MVals = {5} PENDING = 99
INVARIANTS Quiet Holder
PROPERTIES Handed Woken
VIEW View
CHECK_DEADLOCK FALSE
