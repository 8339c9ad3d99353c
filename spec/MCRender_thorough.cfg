SPECIFICATION Spec
CONSTANTS Variants = 240
ACTION_CONSTRAINT Emit
INVARIANTS C39 C39Distinct
CHECK_DEADLOCK FALSE
