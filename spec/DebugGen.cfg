CONSTANTS BYTE = 8 KIND = "av" NAME = "V5" N = 13
SPECIFICATION GSpec
VIEW View
INVARIANT Ellipsis
CHECK_DEADLOCK FALSE
