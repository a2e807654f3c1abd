CONSTANTS BYTE = 8 KIND = "av" NAME = "V5" N = 4
SPECIFICATION GSpec
VIEW View
INVARIANT Part
PROPERTY Partition
CHECK_DEADLOCK FALSE
