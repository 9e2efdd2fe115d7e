SPECIFICATION Spec
CONSTANTS C = 2 B = 2 MaxGet = 3 MaxMsg = 3 MaxLog = 3 MaxFault = 1 Low = 500
INVARIANTS Unique OnceEach Increasing Kept NotBoth Waiting Accounted OneFetch
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
