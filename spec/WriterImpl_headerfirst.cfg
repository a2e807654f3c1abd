CONSTANTS BUG = "headerfirst" MAXOPS = 2 MAXLEN = 3 FAULTS = 1
SPECIFICATION Spec
INVARIANTS Interrupted Reported Needless Drops Closed
CHECK_DEADLOCK FALSE
