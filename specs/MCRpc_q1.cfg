SPECIFICATION Spec
CONSTANTS C = 2 MaxCall = 2 MaxReq = 2 MaxRsp = 2 Mode = "a" Script = TRUE
INVARIANTS Own Once Returns ServedOnce Served ToSender Distinct
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
