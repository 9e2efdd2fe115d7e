SPECIFICATION Spec
CONSTANTS NT = 9  NK = 3
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
