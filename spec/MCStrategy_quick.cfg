SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Sizes = {0, 1, 2}
  Carried = {"none", "same", "stored"}
  KindsUsed = {"create", "update", "cancel", "move", "close"}
  MaxSteps = 2
INVARIANTS C32
PROPERTIES C32Step C33Step
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
