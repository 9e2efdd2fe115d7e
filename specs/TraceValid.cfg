SPECIFICATION Spec
CONSTANTS Base = 65536  Limbs = 4  WLen = 97
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
