SPECIFICATION Spec
CONSTANTS MaxPrice = 8 MaxQty = 8
CONSTANT Costs <- CostSet
ACTION_CONSTRAINT Emit
INVARIANT C12
CHECK_DEADLOCK FALSE
