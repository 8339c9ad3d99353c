SPECIFICATION Spec
CONSTANTS Statuses = {"", "fulfilled", "canceled", "partial_fill", "unfilled", "Fulfilled", "cancelled", "open"} Fillings = {0, 1, 2, 3, 4, 5, 6, 7} MaxSteps = 3
VIEW StatusView
ACTION_CONSTRAINT Emit
INVARIANT C14
CHECK_DEADLOCK FALSE
