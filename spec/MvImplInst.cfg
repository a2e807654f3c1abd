CONSTANTS PAD = 2 LIMIT = 4 SIZES = {1, 4} MAXLEN = 3 MAXITEMS = 2 MAXINDEX = 17 BUG = "none"
SPECIFICATION Spec
INVARIANTS Correct Bounded
CHECK_DEADLOCK FALSE
PROPERTY Instance
