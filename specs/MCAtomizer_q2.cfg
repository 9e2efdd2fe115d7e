SPECIFICATION Spec
CONSTANTS Depth = 0  MaxH = 2  Mode = "raw"  Case = 2
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
