SPECIFICATION Spec
CONSTANTS LineLengths = {3, 4, 6} MaxLen = 5
ACTION_CONSTRAINT Emit
INVARIANTS C60 C60Join
PROPERTIES C60Step
CHECK_DEADLOCK FALSE
