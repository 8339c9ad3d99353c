SPECIFICATION Spec
CONSTANTS Starts = {0, 1, 15, 30, 45, 59} Spacings = {1, 5, 15} Intervals = {2, 5, 15, 30, 45, 60, 90} Lengths = {2, 5, 9, 20} East = {60, 330, 345, 525, 765} West = {30, 210, 300, 570}
ACTION_CONSTRAINT Emit
INVARIANTS C43
CHECK_DEADLOCK FALSE
