SPECIFICATION Spec
CONSTANTS
  Ranges = {0, 1, 3, 10}
  MaxLen = 7
  Betas = {0, 1, 5, 7, 9, 10}
  Den = 10
INVARIANTS C27 Weights Bounded
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
