SPECIFICATION Spec
CONSTANTS C = 1 MaxCall = 3 MaxReq = 2 MaxRsp = 2 Mode = "b" Script = TRUE
INVARIANTS Own Once Returns ServedOnce Served ToSender Distinct
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
