SPECIFICATION Spec
CONSTANTS NT = 8  NK = 4
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
