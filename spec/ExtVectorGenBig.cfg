CONSTANTS BYTE = 8 NAME = "V3" ST = "mem" VALUES = {0, 300} MAXLEN = 5
SPECIFICATION GSpec
VIEW View
PROPERTY OnlyClose
CHECK_DEADLOCK FALSE
