SPECIFICATION Spec
CONSTANTS Prices = {0, 3, 4} Quantities = {9, 10, 11, 12, 20} MaxTrades = 5 Tol = 1
VIEW PosView
ACTION_CONSTRAINT Emit
INVARIANTS C08 C09 C11 C45
PROPERTIES C08Close C09Step C41Step
CHECK_DEADLOCK FALSE
