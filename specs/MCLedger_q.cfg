SPECIFICATION Spec
CONSTANTS NTick = 1  NShard = 2  NKey = 2  NBrk = 1  MaxCrash = 2  Types = {"r","w"}
VIEW view
INVARIANTS NoError Recovered Contents Progress Shards
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
