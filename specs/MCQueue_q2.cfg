SPECIFICATION Spec
CONSTANTS T = 3 Programs = {"t","p","tp","cp"} Spurious = 1 Script = TRUE
INVARIANTS Once Conserved Order Refused NobodyForgotten
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
