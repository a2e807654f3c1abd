CONSTANTS BUG = "none" MAXOPS = 1 MAXLEN = 3 FAULTS = 1
SPECIFICATION Spec
PROPERTY Terminates
INVARIANTS Interrupted Reported Needless Drops Closed
CHECK_DEADLOCK FALSE
