SPECIFICATION Spec
CONSTANTS Variants = 60
ACTION_CONSTRAINT Emit
INVARIANTS C39 C39Distinct
CHECK_DEADLOCK FALSE
