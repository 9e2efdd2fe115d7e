SPECIFICATION Spec
CONSTANTS T = 4 Programs = {"t","tt","p","pp","c"} Spurious = 1 Script = FALSE
INVARIANTS Once Conserved Order Refused NobodyForgotten
VIEW View

CHECK_DEADLOCK FALSE
