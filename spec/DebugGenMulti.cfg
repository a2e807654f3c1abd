CONSTANTS BYTE = 8 KIND = "mv" NAME = "TsA" N = 13
SPECIFICATION GSpec
VIEW View
INVARIANT Ellipsis
CHECK_DEADLOCK FALSE
