SPECIFICATION Spec
CONSTANTS N = 3 Script = TRUE
INVARIANTS Once NoneWaits OneAtATime
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
