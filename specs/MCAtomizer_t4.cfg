SPECIFICATION Spec
CONSTANTS Depth = 2  MaxH = 4  Mode = "raw"  Case = 2
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View

CHECK_DEADLOCK FALSE
