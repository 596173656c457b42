SPECIFICATION PSpec
CONSTANTS MTabs = {0, 1, 2} MVals = {0, 7} MItems <- MItemsSmall
PROPERTIES Ever Refused
VIEW View
CHECK_DEADLOCK FALSE
