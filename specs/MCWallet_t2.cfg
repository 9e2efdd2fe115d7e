SPECIFICATION Spec
CONSTANTS MaxTx = 3  Seeds = 3
INVARIANTS NoDouble Flow
VIEW View
CHECK_DEADLOCK FALSE
