SPECIFICATION Spec
CONSTANTS MaxPrice = 14 MaxQty = 14
CONSTANT Costs <- CostSet
ACTION_CONSTRAINT Emit
INVARIANT C12
CHECK_DEADLOCK FALSE
