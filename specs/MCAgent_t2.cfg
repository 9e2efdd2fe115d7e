SPECIFICATION Spec
CONSTANTS Fn = "key"  Ro = TRUE  MaxRun = 4  MaxBad = 4  MaxAsk = 3
INVARIANTS OneOutcome OkCommitted Truthful OneCommit RetryClean FailClean ReadOnly NoUndo NeverStuck Reported
VIEW View
CHECK_DEADLOCK FALSE
