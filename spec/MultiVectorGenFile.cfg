CONSTANTS BYTE = 8 NAME = "TsD" ST = "file" MAXLEN = 2 MAXITEMS = 1
SPECIFICATION GSpec
VIEW View
INVARIANT Monotonic
PROPERTY Complete
CHECK_DEADLOCK FALSE
