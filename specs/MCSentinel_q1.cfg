SPECIFICATION Spec
CONSTANTS Two = TRUE  N = 3  Thr = 2  Txs = {1, 2, 3}  Bad = {2}
INVARIANTS Sound Once Told Answered
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
