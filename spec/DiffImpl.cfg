CONSTANTS BYTE = 8 LINES = {0, 1, 2} MAX = 3 BUG = "none" EMIT = FALSE
SPECIFICATION Spec
INVARIANT Explains
CHECK_DEADLOCK FALSE
