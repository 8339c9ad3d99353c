SPECIFICATION Spec
CONSTANTS
  Closes = {0, 1, 5}
  MaxLen = 9
  Periods = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS C23 C24 C25 Between Identity
PROPERTIES C30Step
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
