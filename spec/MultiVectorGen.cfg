CONSTANTS BYTE = 8 NAME = "TsA" ST = "mem" MAXLEN = 2 MAXITEMS = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Monotonic
PROPERTY Complete
CHECK_DEADLOCK FALSE
