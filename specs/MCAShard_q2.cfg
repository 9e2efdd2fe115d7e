SPECIFICATION Spec
CONSTANTS Mode = "ar"  MaxB = 4  MaxOps = 5
INVARIANTS Truthful PruneStored WaitsAhead Asked
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
