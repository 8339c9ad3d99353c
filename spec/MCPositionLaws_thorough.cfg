SPECIFICATION Spec
CONSTANTS Prices = {0, 3, 4} Quantities = {9, 10, 11, 20} MaxTrades = 5 Tol = 1
VIEW PosView
ACTION_CONSTRAINT Emit
INVARIANTS C49Opened C50 C55
PROPERTIES C49Step
CHECK_DEADLOCK FALSE
