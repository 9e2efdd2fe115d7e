SPECIFICATION Spec
CONSTANTS K = 1  J = 2  MaxB = 3  MaxE = 2  Ctl = FALSE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
