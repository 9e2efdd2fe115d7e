SPECIFICATION Spec
CONSTANTS Two = TRUE  N = 4  Thr = 3  Txs = {1, 2, 3, 4}  Bad = {2}
INVARIANTS Sound Once Told Answered
VIEW View
CHECK_DEADLOCK FALSE
