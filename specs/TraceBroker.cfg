SPECIFICATION Spec
CONSTANTS BT = 6  BS = 3  BK = 5  RecId = 0
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
