CONSTANTS BYTE = 8 KIND = "file" BIG = TRUE
SPECIFICATION GSpec
VIEW View
INVARIANTS Complete
CHECK_DEADLOCK FALSE
