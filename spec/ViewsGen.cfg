CONSTANTS BYTE = 8 KIND = "av" NAME = "V5" N = 3
SPECIFICATION GSpec
VIEW View
INVARIANT Parts2
PROPERTY NoChange
CHECK_DEADLOCK FALSE
