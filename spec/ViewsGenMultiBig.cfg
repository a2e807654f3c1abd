CONSTANTS BYTE = 8 KIND = "mv" NAME = "TsA" N = 4
SPECIFICATION GSpec
VIEW View
INVARIANT Parts2
PROPERTY NoChange
CHECK_DEADLOCK FALSE
