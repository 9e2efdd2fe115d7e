SPECIFICATION Spec
CONSTANTS C = 1 B = 1 MaxGet = 3 MaxMsg = 3 MaxLog = 3 MaxFault = 2 Low = 500
INVARIANTS Unique OnceEach Increasing Kept NotBoth Waiting Accounted OneFetch
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
