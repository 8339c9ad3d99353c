SPECIFICATION Spec
CONSTANTS
  MaxLen = 80
  MaxPeriod = 84
INVARIANTS C31
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
