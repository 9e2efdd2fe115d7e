SPECIFICATION Spec
CONSTANTS NS = 3  Case = 4  MaxCrash = 2  MaxLost = 1
INVARIANT Inv
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
