CONSTANTS BYTE = 8 KIND = "av" NAME = "V5" N = 3
SPECIFICATION GSpec
VIEW View
INVARIANT Part
PROPERTY Partition
CHECK_DEADLOCK FALSE
