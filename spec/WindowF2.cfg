CONSTANTS BYTE = 2 WORD = 2 BYTES = 3 DEFECT = 2
SPECIFICATION Spec
INVARIANTS ReadsBits WritesBits ReadBack FrameOK SignShift AfterWrite
CHECK_DEADLOCK FALSE
