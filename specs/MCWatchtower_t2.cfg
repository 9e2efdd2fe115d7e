SPECIFICATION Spec
CONSTANTS K = 3  J = 2  MaxB = 5  MaxE = 2  Ctl = TRUE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
CHECK_DEADLOCK FALSE
