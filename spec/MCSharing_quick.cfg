SPECIFICATION Spec
CONSTANTS MaxCalls = 3 Args = {1}
ACTION_CONSTRAINT Emit
INVARIANTS Typed
PROPERTIES C42Step
CHECK_DEADLOCK FALSE
