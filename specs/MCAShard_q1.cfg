SPECIFICATION Spec
CONSTANTS Mode = "sh"  MaxB = 3  MaxOps = 6
INVARIANTS Truthful PruneStored WaitsAhead Asked
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
