CONSTANTS PAD = 2 LIMIT = 5 SIZES = {1, 2, 3, 7} MAXLEN = 4 BUG = "nopad"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
