CONSTANTS BYTE = 8 KIND = "mem" MODE = "build" MAXLEN = 0
SPECIFICATION GSpec
VIEW View
INVARIANTS WhenOpen WhileWritten
PROPERTY OnceCreated
CHECK_DEADLOCK FALSE
