CONSTANTS BYTE = 2 WORD = 3 BYTES = 4 DEFECT = 0
SPECIFICATION Spec
INVARIANTS ReadsBits WritesBits ReadBack FrameOK SignShift AfterWrite
CHECK_DEADLOCK FALSE
