SPECIFICATION Spec
CONSTANTS Skip = {"werr_info"}  Dp = 4
INVARIANTS Whole NoShorter Prefix Distinct
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
