SPECIFICATION Spec
CONSTANTS NTick = 2  NShard = 2  NKey = 2  NBrk = 1  MaxCrash = 0  Types = {"w"}
VIEW view
INVARIANTS NoError Recovered Contents Progress Shards

CHECK_DEADLOCK FALSE
