CONSTANTS BYTE = 8 NAME = "V5" ST = "file" VALUES = {0, 300} MAXLEN = 3
SPECIFICATION GSpec
VIEW View
PROPERTY OnlyClose
CHECK_DEADLOCK FALSE
