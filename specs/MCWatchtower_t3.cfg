SPECIFICATION Spec
CONSTANTS K = 0  J = 0  MaxB = 4  MaxE = 3  Ctl = FALSE
INVARIANTS Window Truthful NoFalseAlarm
VIEW View
CHECK_DEADLOCK FALSE
