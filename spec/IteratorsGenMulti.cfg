CONSTANTS BYTE = 8 KIND = "mv" NAME = "TsA" N = 3
SPECIFICATION GSpec
VIEW View
INVARIANT Part
PROPERTY Partition
CHECK_DEADLOCK FALSE
