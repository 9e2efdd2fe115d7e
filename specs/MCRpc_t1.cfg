SPECIFICATION Spec
CONSTANTS C = 2 MaxCall = 2 MaxReq = 3 MaxRsp = 3 Mode = "a" Script = FALSE
INVARIANTS Own Once Returns ServedOnce Served ToSender Distinct
VIEW View

CHECK_DEADLOCK FALSE
