CONSTANTS BYTE = 8 NAME = "TsD" ST = "mem" MAXLEN = 3 MAXITEMS = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Monotonic
PROPERTY Complete
CHECK_DEADLOCK FALSE
