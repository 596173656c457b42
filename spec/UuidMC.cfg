SPECIFICATION ModelSpec
CONSTANTS
  HB = 1
  HD = 2
  MVals = {0, 1, 61, 62, 128, 254, 255}
INVARIANT Order
PROPERTIES RoundTrip TextTrip
CHECK_DEADLOCK FALSE
