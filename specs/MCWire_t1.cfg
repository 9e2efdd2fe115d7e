SPECIFICATION Spec
CONSTANTS Skip = {"werr_info"}  Dp = 7
INVARIANTS Whole NoShorter Prefix Distinct
VIEW View
CHECK_DEADLOCK FALSE
