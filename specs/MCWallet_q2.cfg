SPECIFICATION Spec
CONSTANTS MaxTx = 3  Seeds = 1
INVARIANTS NoDouble Flow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
