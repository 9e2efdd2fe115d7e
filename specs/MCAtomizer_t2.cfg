SPECIFICATION Spec
CONSTANTS Depth = 1  MaxH = 3  Mode = "raw"  Case = 2
INVARIANTS NoDoubleSpend OnlyExisting InBlocks Contiguous Window
VIEW View

CHECK_DEADLOCK FALSE
