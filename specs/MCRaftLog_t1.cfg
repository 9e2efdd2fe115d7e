SPECIFICATION Spec
CONSTANTS N = 8 Max = 4 Marker = TRUE Script = FALSE
INVARIANTS Faithful Durable
VIEW View

CHECK_DEADLOCK FALSE
