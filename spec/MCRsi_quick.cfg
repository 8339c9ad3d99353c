SPECIFICATION Spec
CONSTANTS
  Starts = {"flat", "rise", "fall", "zigzag"}
  Closes = {1, 2, 4}
  MaxTail = 5
  Periods = {1, 2, 3, 5, 12, 13, 14, 15, 16}
INVARIANTS C26
PROPERTIES C30Step
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
