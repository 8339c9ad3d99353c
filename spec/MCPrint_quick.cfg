SPECIFICATION Spec
CONSTANTS PrintKinds = {"order", "trade", "position", "annotation", "pair", "balance", "assets", "snapshot", "asset", "ticker", "candle", "book", "row", "request", "closeorder", "annotations"} MaxId = 10 Fillings = {0, 1, 2} 
ACTION_CONSTRAINT Emit
INVARIANT C38
CHECK_DEADLOCK FALSE
