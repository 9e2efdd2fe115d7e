SPECIFICATION Spec
CONSTANTS Depth = 2  MaxH = 2  Mode = "agg"  Case = 2
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
