SPECIFICATION Spec
CONSTANTS MaxTx = 3  Two = TRUE
INVARIANTS NoPhantom NoDouble Kept Agree Disjoint
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
