SPECIFICATION Spec
CONSTANTS C = 3 B = 1 MaxGet = 4 MaxMsg = 4 MaxLog = 3 MaxFault = 1 Low = 1
INVARIANTS Unique OnceEach Increasing Kept NotBoth Waiting Accounted OneFetch
VIEW View
CHECK_DEADLOCK FALSE
