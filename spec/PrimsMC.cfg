SPECIFICATION GSpec
CONSTANTS MTabs = {0, 1, 2} MVals = {0, 7} MItems <- MItemsSmall
PROPERTIES Whole Refused
VIEW View
CHECK_DEADLOCK FALSE
