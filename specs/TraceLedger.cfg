SPECIFICATION Spec
CONSTANTS LT = 10  LK = 5
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
