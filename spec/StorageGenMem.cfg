CONSTANTS BYTE = 8 KIND = "mem" BIG = FALSE
SPECIFICATION GSpec
VIEW View
INVARIANTS Complete
CHECK_DEADLOCK FALSE
