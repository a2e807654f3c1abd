CONSTANTS BYTE = 8 ARCHIVE = "Full" DAMAGE = {"ok", "hdr"}
SPECIFICATION GSpec
INVARIANTS AllOrNothing Stored
CHECK_DEADLOCK FALSE
