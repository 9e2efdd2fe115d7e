SPECIFICATION Spec
CONSTANTS NS = 2  Case = 3  MaxCrash = 2  MaxLost = 1
INVARIANT Inv
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
