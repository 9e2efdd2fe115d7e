SPECIFICATION Spec
CONSTANTS NT = 2  NK = 1  MaxPend = 2  MaxCrash = 1
VIEW View
INVARIANTS InvC04
PROPERTIES ValuesByCommit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
