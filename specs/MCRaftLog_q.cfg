SPECIFICATION Spec
CONSTANTS N = 5 Max = 3 Marker = TRUE Script = TRUE
INVARIANTS Faithful Durable
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
