SPECIFICATION Spec
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
