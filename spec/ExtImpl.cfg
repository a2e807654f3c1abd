CONSTANTS PAD = 2 LIMIT = 5 SIZES = {1, 2, 3, 7} MAXLEN = 4 BUG = "none"
SPECIFICATION Spec
INVARIANTS Correct Bounded
CHECK_DEADLOCK FALSE
PROPERTY Instance
