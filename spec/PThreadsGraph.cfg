SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Locks = {1} Conds = {1} MVals = {5} PENDING = 99
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
