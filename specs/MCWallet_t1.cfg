SPECIFICATION Spec
CONSTANTS MaxTx = 4  Seeds = 0
INVARIANTS NoDouble Flow
VIEW View
CHECK_DEADLOCK FALSE
