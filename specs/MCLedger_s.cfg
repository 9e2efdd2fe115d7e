SPECIFICATION Spec
CONSTANTS NTick = 2  NShard = 2  NKey = 2  NBrk = 2  MaxCrash = 1  Types = {"r","w"}
VIEW view
INVARIANTS NoError Recovered Contents Progress Shards
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
