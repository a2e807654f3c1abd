CONSTANTS BYTE = 8 NAME = "S6" REGS = 2
SPECIFICATION GSpec
VIEW View
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
