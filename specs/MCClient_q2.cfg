SPECIFICATION Spec
CONSTANTS MaxTx = 3  Two = FALSE
INVARIANTS NoPhantom NoDouble Kept Agree Disjoint
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
