CONSTANTS BYTE = 8 RES = "m" LABELS = {"snap"} MAXAT = 20 MAXLEN = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Known
CHECK_DEADLOCK FALSE
