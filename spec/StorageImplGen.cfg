CONSTANTS KIND = "file" BUG = "none" EMIT = TRUE
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
