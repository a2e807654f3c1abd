CONSTANTS KIND = "mem" BUG = "none" EMIT = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
