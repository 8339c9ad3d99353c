SPECIFICATION Spec
CONSTANTS Closes = {0, 1, 4} Changes = {0, 3} MaxLen = 4 Periods = {1, 2, 3}
ACTION_CONSTRAINT Emit
INVARIANTS C58Averages C58Volatility C59 C59Fractals
CHECK_DEADLOCK FALSE
