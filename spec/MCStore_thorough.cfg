SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3} WrongArgs = {"value", "nil", "string", "map", "pointer", "slice"} MaxSteps = 4
VIEW StoreView
ACTION_CONSTRAINT Emit
PROPERTY C15Step
CHECK_DEADLOCK FALSE
