SPECIFICATION Spec
CONSTANTS
  MaxLen = 40
  MaxPeriod = 44
INVARIANTS C31
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
