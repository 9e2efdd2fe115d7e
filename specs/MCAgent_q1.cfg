SPECIFICATION Spec
CONSTANTS Fn = "key"  Ro = FALSE  MaxRun = 2  MaxBad = 2  MaxAsk = 1
INVARIANTS OneOutcome OkCommitted Truthful OneCommit RetryClean FailClean ReadOnly NoUndo NeverStuck Reported
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
