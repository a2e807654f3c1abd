CONSTANTS KIND = "file" BUG = "none" EMIT = FALSE
SPECIFICATION Spec
INVARIANTS UpToDate Unchanged
CHECK_DEADLOCK FALSE
