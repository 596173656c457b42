SPECIFICATION ModelSpec
CONSTANTS
  HB = 2
  HD = 3
  MVals = {0, 1, 62, 128, 255}
INVARIANT Order
PROPERTIES RoundTrip TextTrip
CHECK_DEADLOCK FALSE
