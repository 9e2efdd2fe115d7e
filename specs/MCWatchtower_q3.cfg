SPECIFICATION Spec
CONSTANTS K = 2  J = 2  MaxB = 3  MaxE = 1  Ctl = TRUE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
