SPECIFICATION Spec
CONSTANTS Depth = 2  MaxH = 3  Mode = "raw"  Case = 1
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View

CHECK_DEADLOCK FALSE
