CONSTANTS PAD = 2 LIMIT = 4 SIZES = {1, 4} MAXLEN = 4 MAXITEMS = 2 MAXINDEX = 17 BUG = "narrow"
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
