SPECIFICATION Spec
CONSTANTS
  FirstYears = {1, 99, 399, 1582, 1899, 1968, 1999, 2009, 2023, 2035, 2099, 2399, 9996}
  Years = 4
INVARIANTS C37 C34 Zero Twice
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
