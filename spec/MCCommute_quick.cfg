SPECIFICATION Spec
CONSTANTS MaxPrice = 4 MaxVolume = 2 Depths = {0, 1, 2, 3} SnapshotLen = 1 MaxSteps = 20
VIEW BookView
ACTION_CONSTRAINT Emit
INVARIANTS C48 C48Built
CHECK_DEADLOCK FALSE
