SPECIFICATION Spec
CONSTANTS C = 2 MaxCall = 3 MaxReq = 2 MaxRsp = 3 Mode = "b" Script = FALSE
INVARIANTS Own Once Returns ServedOnce Served ToSender Distinct
VIEW View

CHECK_DEADLOCK FALSE
