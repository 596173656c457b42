SPECIFICATION Spec
CONSTANTS
  MSecs <- MSecsSmall
  MMicros <- MMicrosSmall
  MCounts = {0, 1, 3}
  MCosts <- MCostsSmall
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
