SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Starts = {1, 3} MaxOps = 6
ACTION_CONSTRAINT Emit
INVARIANT C10
PROPERTY C10Step
CHECK_DEADLOCK FALSE
