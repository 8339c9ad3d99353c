SPECIFICATION Spec
CONSTANTS Amounts = {0, 1, 3, 4} Types = {"market", "close_position", "limit", "take_profit", "stop_loss", "", "other"}
ACTION_CONSTRAINT Emit
INVARIANTS C13 C57
CHECK_DEADLOCK FALSE
