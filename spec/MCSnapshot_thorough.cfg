SPECIFICATION Spec
CONSTANTS MaxPrice = 4 MaxVolume = 2 Depths = {0, 1, 2, 3} MaxLen = 3 MaxSteps = 1
ACTION_CONSTRAINT Emit
INVARIANTS C05 C05Best
CHECK_DEADLOCK FALSE
