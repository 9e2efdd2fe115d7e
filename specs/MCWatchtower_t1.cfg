SPECIFICATION Spec
CONSTANTS K = 2  J = 2  MaxB = 5  MaxE = 3  Ctl = FALSE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
CHECK_DEADLOCK FALSE
