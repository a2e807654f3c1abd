CONSTANTS BYTE = 8 KIND = "av" NAME = "V5" N = 4
SPECIFICATION GSpec
VIEW View
INVARIANT Parts2
PROPERTY NoChange
CHECK_DEADLOCK FALSE
