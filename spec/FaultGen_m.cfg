CONSTANTS BYTE = 8 RES = "m" LABELS = {"io", "full", "torn", "short", "interrupted"} MAXAT = 20 MAXLEN = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Known
CHECK_DEADLOCK FALSE
