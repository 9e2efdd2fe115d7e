SPECIFICATION Spec
CONSTANTS K = 2  J = 1  MaxB = 4  MaxE = 2  Ctl = FALSE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
