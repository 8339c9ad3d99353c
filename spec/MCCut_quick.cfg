SPECIFICATION Spec
CONSTANTS LineLengths = {3, 5} MaxLen = 4
ACTION_CONSTRAINT Emit
INVARIANTS C60 C60Join
PROPERTIES C60Step
CHECK_DEADLOCK FALSE
