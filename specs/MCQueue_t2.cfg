SPECIFICATION Spec
CONSTANTS T = 4 Programs = {"t","tp","pp","cp","pc"} Spurious = 0 Script = FALSE
INVARIANTS Once Conserved Order Refused NobodyForgotten
VIEW View

CHECK_DEADLOCK FALSE
