CONSTANTS BYTE = 8 NAME = "V2" VALUES = {0, 300} MAXLEN = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Consistent
PROPERTY Independent
CHECK_DEADLOCK FALSE
