SPECIFICATION Spec
CONSTANTS Depth = 1  MaxH = 3  Mode = "agg"  Case = 1
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View

CHECK_DEADLOCK FALSE
