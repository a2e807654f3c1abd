CONSTANTS BUG = "none" MAXOPS = 2 MAXLEN = 4 FAULTS = 2
SPECIFICATION Spec
INVARIANTS Interrupted Reported Needless Drops Closed
CHECK_DEADLOCK FALSE
