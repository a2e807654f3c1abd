CONSTANTS BYTE = 2 WORD = 2 BYTES = 4 DEFECT = 1
SPECIFICATION Spec
INVARIANTS ReadsBits WritesBits ReadBack FrameOK SignShift AfterWrite
CHECK_DEADLOCK FALSE
