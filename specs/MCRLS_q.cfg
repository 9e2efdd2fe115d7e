SPECIFICATION Spec
CONSTANTS NT = 2  NK = 2  Brokers = {1}  MaxLen = 99
VIEW View
INVARIANTS InvC01 InvC02 InvC03
PROPERTIES Retain PreparedSafe ValuesByCommit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
