SPECIFICATION Spec
INVARIANTS C36
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
