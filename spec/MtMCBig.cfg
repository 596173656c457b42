SPECIFICATION Spec
CONSTANTS
  NN = 5
  MM = 3
  NC = 2
  MaxDraws = 16
  Time <- TimeWord
  MSeeds <- MSeedsSmall
  MKeys <- MKeysSmall
VIEW GView
INVARIANT Words
PROPERTIES SameSequence Others
CHECK_DEADLOCK FALSE
