SPECIFICATION Spec
CONSTANTS MaxPrice = 4 MaxVolume = 2 MaxRows = 2
ACTION_CONSTRAINT Emit
INVARIANTS C07
CHECK_DEADLOCK FALSE
