SPECIFICATION Spec
CONSTANTS
  MSecs <- MSecsSmall
  MMicros <- MMicrosSmall
  MCounts = {0, 1, 2, 3, 7}
  MCosts <- MCostsSmall
VIEW View
INVARIANT Laws
CHECK_DEADLOCK FALSE
