CONSTANTS PAD = 2 LIMIT = 5 SIZES = {1, 2, 3, 4, 7} MAXLEN = 5 BUG = "none"
SPECIFICATION Spec
INVARIANTS Correct Bounded
CHECK_DEADLOCK FALSE
PROPERTY Instance
