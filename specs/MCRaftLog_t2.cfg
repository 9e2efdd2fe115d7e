SPECIFICATION Spec
CONSTANTS N = 9 Max = 3 Marker = TRUE Script = FALSE
INVARIANTS Faithful Durable
VIEW View

CHECK_DEADLOCK FALSE
