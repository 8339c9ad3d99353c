SPECIFICATION Spec
CONSTANTS Paths = {1, 2} MaxLen = 2 DamageKinds = {"a", "b"} MaxSteps = 5
VIEW FileView
ACTION_CONSTRAINT Emit
PROPERTIES C21Step C22Step
CHECK_DEADLOCK FALSE
