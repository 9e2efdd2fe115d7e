SPECIFICATION Spec
CONSTANTS MaxTx = 4  Two = TRUE
INVARIANTS NoPhantom NoDouble Kept Agree Disjoint
VIEW View
CHECK_DEADLOCK FALSE
