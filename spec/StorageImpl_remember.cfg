CONSTANTS KIND = "file" BUG = "remember" EMIT = FALSE
SPECIFICATION Spec
INVARIANTS UpToDate Unchanged
CHECK_DEADLOCK FALSE
