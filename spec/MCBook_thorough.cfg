SPECIFICATION Spec
CONSTANTS MaxPrice = 5 MaxVolume = 2 Depths = {0, 1, 2, 3, 5} SnapshotLen = 1 MaxSteps = 20
VIEW BookView
ACTION_CONSTRAINT Emit
INVARIANTS C01 C02Inv C04 C06 C40 C44 C46 C56
PROPERTIES C02Step C03Step C44Step C46Step C56Step
CHECK_DEADLOCK FALSE
