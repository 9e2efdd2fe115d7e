SPECIFICATION Spec
CONSTANTS NT = 2  NK = 2  MaxPend = 2  MaxCrash = 2
VIEW View
INVARIANTS InvC04
PROPERTIES ValuesByCommit
CHECK_DEADLOCK FALSE
