SPECIFICATION Spec
CONSTANTS Base = 2  Limbs = 1  WLen = 97  Keys <- K3  Known <- Kn3  Max = 2
INVARIANTS Sound None Mono
VIEW View

CHECK_DEADLOCK FALSE
