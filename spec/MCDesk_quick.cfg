SPECIFICATION Spec
CONSTANTS Pairs = {1, 2} Prices = {3, 5} Quantities = {1, 2, 3} MaxOrders = 3
VIEW DeskView
ACTION_CONSTRAINT Emit
INVARIANTS C53 C53Flat
CHECK_DEADLOCK FALSE
