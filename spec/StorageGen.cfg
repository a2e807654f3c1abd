CONSTANTS BYTE = 8 KIND = "file" BIG = FALSE
SPECIFICATION GSpec
VIEW View
INVARIANTS Complete
CHECK_DEADLOCK FALSE
