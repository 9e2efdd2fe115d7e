SPECIFICATION Spec
CONSTANTS Depth = 1  MaxH = 2  Mode = "agg"  Case = 1
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
