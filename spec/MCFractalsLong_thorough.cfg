SPECIFICATION SpecLong
CONSTANTS
  Highs = {11, 12, 13}
  Lows = {5}
  MaxLen = 11
INVARIANTS C28 Apart
PROPERTIES C29Step
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
