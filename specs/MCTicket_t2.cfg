SPECIFICATION Spec
CONSTANTS C = 2 B = 3 MaxGet = 6 MaxMsg = 4 MaxLog = 3 MaxFault = 1 Low = 2
INVARIANTS Unique OnceEach Increasing Kept NotBoth Waiting Accounted OneFetch
VIEW View
CHECK_DEADLOCK FALSE
