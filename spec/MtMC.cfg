SPECIFICATION Spec
CONSTANTS
  NN = 4
  MM = 2
  NC = 2
  MaxDraws = 6
  Time <- TimeWord
  MSeeds <- MSeedsSmall
  MKeys <- MKeysSmall
VIEW GView
INVARIANT Words
PROPERTIES SameSequence Others
CHECK_DEADLOCK FALSE
