SPECIFICATION Spec
CONSTANTS Base = 2  Limbs = 1  WLen = 97  Keys <- K2  Known <- Kn2  Max = 1
INVARIANTS Sound None Mono
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
