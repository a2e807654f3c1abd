CONSTANTS BYTE = 8 KIND = "file" MODE = "life" MAXLEN = 2
SPECIFICATION GSpec
VIEW View
INVARIANTS WhenOpen WhileWritten
PROPERTY OnceCreated
CHECK_DEADLOCK FALSE
