SPECIFICATION Spec
CONSTANTS Two = FALSE  N = 4  Thr = 2  Txs = {1, 2, 3, 4, 5}  Bad = {2}
INVARIANTS Sound Once Told Answered
VIEW View
CHECK_DEADLOCK FALSE
