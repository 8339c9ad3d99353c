SPECIFICATION Spec
CONSTANTS Starts = {0, 1, 4, 57, 59} Spacings = {1, 2, 15} Intervals = {1, 2, 3, 4, 6, 7, 30, 60, 90} Slots = 6 Shapes = {"up", "down", "zigzag"}
ACTION_CONSTRAINT Emit
INVARIANTS C17 C17Partition C18 C19 C20 C51
CHECK_DEADLOCK FALSE
