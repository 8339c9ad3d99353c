SPECIFICATION Spec
CONSTANTS Subjects = {"book", "position"} Prices = {1, 2} Volumes = {1, 2} MaxSteps = 3
ACTION_CONSTRAINT Emit
INVARIANT C16
CHECK_DEADLOCK FALSE
