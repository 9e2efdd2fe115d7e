SPECIFICATION Spec
CONSTANTS N = 4 Script = FALSE
INVARIANTS Once NoneWaits OneAtATime
VIEW View

CHECK_DEADLOCK FALSE
