SPECIFICATION Spec
CONSTANTS NS = 2  Case = 2  MaxCrash = 1  MaxLost = 0
INVARIANT Inv
PROPERTY Stable
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
