CONSTANTS KIND = "mem" BUG = "append" EMIT = FALSE
SPECIFICATION Spec
INVARIANTS UpToDate Unchanged
CHECK_DEADLOCK FALSE
