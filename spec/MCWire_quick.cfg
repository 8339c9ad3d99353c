SPECIFICATION Spec
CONSTANTS MaxNames = 2
ACTION_CONSTRAINT Emit
INVARIANTS C52
CHECK_DEADLOCK FALSE
