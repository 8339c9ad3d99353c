SPECIFICATION Spec
CONSTANTS Closes = {0, 1, 4} MaxLen = 8 Periods = {1, 2, 3, 7} Factors = {2, 7} Shifts = {5}
ACTION_CONSTRAINT Emit
INVARIANTS C47Averages C47Strength C47Fractals
CHECK_DEADLOCK FALSE
