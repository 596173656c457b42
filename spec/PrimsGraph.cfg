SPECIFICATION GSpec
CONSTANTS MTabs = {0, 1} MVals = {7} MItems <- MItemsSmall
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
