SPECIFICATION Spec
CONSTANTS Mode = "ar"  MaxB = 5  MaxOps = 8
INVARIANTS Truthful PruneStored WaitsAhead Asked
VIEW View
CHECK_DEADLOCK FALSE
