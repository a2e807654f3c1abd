CONSTANTS KIND = "mem" BUG = "none" EMIT = FALSE
SPECIFICATION Spec
INVARIANTS UpToDate Unchanged
CHECK_DEADLOCK FALSE
