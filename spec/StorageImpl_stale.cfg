CONSTANTS KIND = "mem" BUG = "stale" EMIT = FALSE
SPECIFICATION Spec
INVARIANTS UpToDate Unchanged
CHECK_DEADLOCK FALSE
