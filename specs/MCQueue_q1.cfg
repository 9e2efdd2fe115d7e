SPECIFICATION Spec
CONSTANTS T = 3 Programs = {"t","tt","p","pp","c","pc"} Spurious = 0 Script = TRUE
INVARIANTS Once Conserved Order Refused NobodyForgotten
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
