SPECIFICATION Spec
CONSTANTS Pairs = {1, 2} Prices = {3, 5} Quantities = {1, 2} MaxOrders = 4
VIEW DeskView
ACTION_CONSTRAINT Emit
INVARIANTS C53 C53Flat
CHECK_DEADLOCK FALSE
