CONSTANTS BYTE = 8 RES = "v" LABELS = {"io", "full", "torn", "short", "interrupted"} MAXAT = 10 MAXLEN = 2
SPECIFICATION GSpec
VIEW View
INVARIANT Known
CHECK_DEADLOCK FALSE
