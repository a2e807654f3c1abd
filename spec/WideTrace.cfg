CONSTANT BYTE = 8
SPECIFICATION TSpec
POSTCONDITION Post
CHECK_DEADLOCK FALSE
