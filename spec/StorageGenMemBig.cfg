CONSTANTS BYTE = 8 KIND = "mem" BIG = TRUE
SPECIFICATION GSpec
VIEW View
INVARIANTS Complete
CHECK_DEADLOCK FALSE
