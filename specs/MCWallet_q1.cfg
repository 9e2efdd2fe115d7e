SPECIFICATION Spec
CONSTANTS MaxTx = 3  Seeds = 0
INVARIANTS NoDouble Flow
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
