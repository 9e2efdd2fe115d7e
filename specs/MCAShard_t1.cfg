SPECIFICATION Spec
CONSTANTS Mode = "sh"  MaxB = 3  MaxOps = 9
INVARIANTS Truthful PruneStored WaitsAhead Asked
VIEW View
CHECK_DEADLOCK FALSE
