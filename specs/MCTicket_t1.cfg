SPECIFICATION Spec
CONSTANTS C = 2 B = 2 MaxGet = 4 MaxMsg = 4 MaxLog = 4 MaxFault = 2 Low = 500
INVARIANTS Unique OnceEach Increasing Kept NotBoth Waiting Accounted OneFetch
VIEW View
CHECK_DEADLOCK FALSE
