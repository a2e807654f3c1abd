CONSTANTS BYTE = 8 LINES = {0, 1} MAX = 3 BUG = "changes" EMIT = FALSE
SPECIFICATION Spec
INVARIANT Explains
CHECK_DEADLOCK FALSE
